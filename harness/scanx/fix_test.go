package scanx

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

var ctx = context.Background()

var errStore = errors.New("store is not available")

// world is a chain as the scanner sees it: headers, filters and blocks become
// visible over time, calls take time and fail.
type world struct {
	big   bool // now and then a block has hundreds of transactions or outputs
	c     *hx.Case
	r     *rand.Rand
	chain *hx.Chain
	pool  [][]byte            // scripts that are watched now and then
	prevs []prevout           // outputs that may be spent
	paid  map[string][]uint32 // script -> heights of the blocks that pay to it

	repository.BlockHeaderRepository
	filters repository.FilterRepository

	mu     sync.Mutex
	tip    uint32                     // headers visible
	seen   map[uint32]time.Time       // when a height became visible
	elems  map[uint32]map[string]bool // what the filter of a height is made of
	calls  atomic.Int64
	ops    map[string]int
	failed int
	// Fault and Delay decide what happens to a call on a block (height 0: none)
	Fault func(op string, height uint32) error
	Delay func(op string, height uint32) time.Duration
}

type prevout struct {
	tx     hx.Hash
	index  uint32
	script []byte
}

func newWorld(c *hx.Case, scripts int) *world {
	w := &world{c: c, r: c.Rand, chain: hx.NewChain(c.Rand, []string{"liquid", "testnet", "regtest"}[c.Rand.Intn(3)], 0),
		BlockHeaderRepository: inmemory.NewHeaderInmemory(), filters: inmemory.NewFilterInmemory(), seen: map[uint32]time.Time{}, elems: map[uint32]map[string]bool{}, ops: map[string]int{}}
	for i := 0; i < scripts; i++ {
		w.pool = append(w.pool, randScript(c.Rand))
	}
	return w
}

func randScript(r *rand.Rand) []byte {
	switch r.Intn(4) {
	case 0:
		return hx.Cat([]byte{0xa9, 20}, hx.RandBytes(r, 20), []byte{0x87})
	case 1:
		return hx.Cat([]byte{0x76, 0xa9, 20}, hx.RandBytes(r, 20), []byte{0x88, 0xac})
	case 2:
		return hx.Cat([]byte{0, 32}, hx.RandBytes(r, 32))
	}
	return hx.P2WPKH(r)
}

// mine makes the next block: it pays to some of the given scripts, spends some
// outputs, and its filter may match scripts nobody is paid to.
func (w *world) mine(density int) *hx.Blk {
	var txs []*hx.Tx
	var elems [][]byte
	n, outs := w.r.Intn(4), 3
	if w.big && w.r.Intn(10) == 0 {
		switch w.c.Count("large blocks", 1); w.r.Intn(3) {
		case 0:
			n, outs = 200+w.r.Intn(400), 2
		case 1:
			n, outs = 1+w.r.Intn(3), 600
		default:
			n, outs = 20+w.r.Intn(40), 60
		}
	}
	for ; n > 0; n-- {
		var to [][]byte
		for k := 1 + w.r.Intn(outs); k > 0; k-- {
			if len(w.pool) > 0 && w.r.Intn(100) < density {
				to = append(to, w.pool[w.r.Intn(len(w.pool))])
			} else {
				to = append(to, randScript(w.r))
			}
		}
		if w.r.Intn(4) == 0 { // twice to the same
			to = append(to, to[0])
		}
		if len(w.pool) > 0 && w.r.Intn(6) == 0 { // to almost the same
			s := w.pool[w.r.Intn(len(w.pool))]
			elems = append(elems, s)
			s = append([]byte(nil), s...)
			switch w.r.Intn(4) {
			case 0:
				s = append(s, byte(w.r.Intn(256)))
			case 1:
				s = s[:len(s)-1]
			case 2:
				s = append([]byte{0}, s...)
			default:
				s[w.r.Intn(len(s))] ^= 1 << uint(w.r.Intn(8))
			}
			to = append(to, s)
		}
		t := hx.RandTx(w.r, to, w.r.Intn(3) == 0)
		if len(w.prevs) > 0 && w.r.Intn(2) == 0 {
			p := w.prevs[w.r.Intn(len(w.prevs))]
			i := w.r.Intn(len(t.Ins))
			t.Ins[i].Prev, t.Ins[i].Index = p.tx, p.index
			switch w.r.Intn(12) { // another output, though the filter says it may be this one
			case 0:
				t.Ins[i].Index ^= 1 << uint(w.r.Intn(29))
			case 1:
				t.Ins[i].Prev[w.r.Intn(32)] ^= 1 << uint(w.r.Intn(8))
			}
			elems = append(elems, p.script)
			if s := w.payee(t.Ins[i].Prev, t.Ins[i].Index); s != nil { // it may have become another that exists
				elems = append(elems, s)
			}
		}
		if w.r.Intn(3) == 0 { // a fee
			t.Outs = append(t.Outs, hx.TxOut{Asset: t.Outs[0].Asset, Value: append([]byte{1}, make([]byte, 8)...), Nonce: []byte{0}})
		}
		txs = append(txs, t)
	}
	return w.mineTxs(txs, elems)
}

// payee is the script of an output of the chain.
func (w *world) payee(tx hx.Hash, index uint32) []byte {
	for _, b := range w.chain.Blks {
		for i, id := range b.IDs {
			if id == tx && int(index) < len(b.Txs[i].Outs) {
				return b.Txs[i].Outs[index].Script
			}
		}
	}
	return nil
}

func (w *world) mineTxs(txs []*hx.Tx, elems [][]byte) *hx.Blk {
	b := w.chain.Next(txs)
	for _, t := range b.Txs {
		id := t.ID()
		for i, o := range t.Outs {
			if len(o.Script) > 0 && o.Script[0] != 0x6a {
				elems = append(elems, o.Script)
				if i > 100 && w.r.Intn(20) == 0 && len(w.prevs) > 0 {
					w.prevs[w.r.Intn(len(w.prevs))] = prevout{id, uint32(i), o.Script}
				} else if len(w.prevs) < 20 {
					w.prevs = append(w.prevs, prevout{id, uint32(i), o.Script})
				} else if w.r.Intn(3) == 0 {
					w.prevs[w.r.Intn(20)] = prevout{id, uint32(i), o.Script}
				}
			}
		}
	}
	for n := w.r.Intn(3) - 1; n > 0 && len(w.pool) > 0; n-- {
		elems = append(elems, w.pool[w.r.Intn(len(w.pool))])
	}
	b.Filter = hx.FilterOf(b.Hash, elems)
	in := map[string]bool{}
	for _, e := range elems {
		in[string(e)] = true
	}
	w.elems[b.H.Height] = in
	w.chain.Blks = append(w.chain.Blks, b)
	return b
}

// show makes the headers up to a height visible.
func (w *world) show(height uint32) {
	w.mu.Lock()
	defer w.mu.Unlock()
	var hs []block.Header
	for h := w.tip + 1; h <= height && h <= w.chain.Height(); h++ {
		hs = append(hs, *w.chain.Blks[h].Header())
		w.seen[h] = time.Now()
		w.tip = h
	}
	w.BlockHeaderRepository.WriteHeaders(ctx, hs...)
}

func (w *world) showFilter(height uint32) {
	b := w.chain.Blks[height]
	w.filters.PutFilter(ctx, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: append([]byte(nil), b.Hash[:]...), FilterType: repository.RegularFilter}, NBytes: b.Filter})
}

func (w *world) op(op string, height uint32) error {
	w.calls.Add(1)
	w.mu.Lock()
	w.ops[op]++
	f, d := w.Fault, w.Delay
	w.mu.Unlock()
	if d != nil {
		if t := d(op, height); t > 0 {
			time.Sleep(t)
		}
	}
	if f != nil {
		if err := f(op, height); err != nil {
			w.mu.Lock()
			w.failed++
			w.mu.Unlock()
			return err
		}
	}
	return nil
}

func (w *world) ChainTip(c context.Context) (*block.Header, error) {
	if err := w.op("tip", 0); err != nil {
		return nil, err
	}
	return w.BlockHeaderRepository.ChainTip(c)
}

func (w *world) GetBlockHashByHeight(c context.Context, h uint32) (*chainhash.Hash, error) {
	if err := w.op("hash", h); err != nil {
		return nil, err
	}
	return w.BlockHeaderRepository.GetBlockHashByHeight(c, h)
}

func (w *world) height(h []byte) uint32 {
	for i, b := range w.chain.Blks {
		if string(b.Hash[:]) == string(h) {
			return uint32(i)
		}
	}
	return 0
}

type fview struct{ w *world }

func (f fview) PutFilter(c context.Context, e *repository.FilterEntry) error {
	return f.w.filters.PutFilter(c, e)
}

func (f fview) GetFilter(c context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	if err := f.w.op("filter", f.w.height(k.BlockHash)); err != nil {
		return nil, err
	}
	return f.w.filters.GetFilter(c, k)
}

type bview struct{ w *world }

func (b bview) GetBlock(h *chainhash.Hash) (*block.Block, error) {
	n := b.w.height(h[:])
	if err := b.w.op("block", n); err != nil {
		return nil, err
	}
	if n == 0 {
		return nil, blockservice.ErrorBlockNotFound
	}
	return b.w.chain.Blks[n].Block(), nil
}

func (w *world) scanner() scanner.Service {
	return scanner.New(fview{w}, w, bview{w}, hx.CH(w.chain.Blks[0].Hash))
}

// item is what a request watches, as the harness sees it.
type item struct {
	what   string
	script []byte
	spent  *prevout
	own    scanner.WatchItem
}

// ownItem is a watch item a user of the library wrote.
type ownItem struct{ script []byte }

func (o *ownItem) Bytes() []byte { return o.script }
func (o *ownItem) Match(t *transaction.Transaction) bool {
	for _, out := range t.Outputs {
		if string(out.Script) == string(o.script) {
			return true
		}
	}
	return false
}
func (o *ownItem) EventType() scanner.EventType { return scanner.EventType(7) }

// watchItem makes the item of the library that watches a script or an outpoint.
func (w *world) watchItem(script []byte, p *prevout, own bool) item {
	it := item{script: script, spent: p}
	var err error
	switch {
	case p != nil:
		it.what = fmt.Sprintf("spent %s:%d", p.tx, p.index)
		it.own, err = scanner.NewSpentWatchItemFromInput(&transaction.TxInput{Hash: append([]byte(nil), p.tx[:]...), Index: p.index}, p.script)
	case own:
		it.what = "own " + hex.EncodeToString(script)
		it.own = &ownItem{script}
	default:
		it.what = "unspent " + hex.EncodeToString(script)
		it.own, err = scanner.NewUnspentWatchItemFromAddress(Address(script, w.r))
	}
	if err != nil {
		w.c.Violate("watch item refused", "%s: %v", it.what, err)
		w.c.Abort()
	}
	if string(it.own.Bytes()) != string(it.filterItem()) {
		w.c.Violate("item looks for something else", "%s looks in filters for %x", it.what, it.own.Bytes())
		w.c.Abort()
	}
	return it
}

func (it item) filterItem() []byte {
	if it.spent != nil {
		return it.spent.script
	}
	return it.script
}

func (it item) matches(t *hx.Tx) bool {
	if it.spent != nil {
		for _, in := range t.Ins {
			if in.Prev == it.spent.tx && in.Index == it.spent.index {
				return true
			}
		}
		return false
	}
	for _, o := range t.Outs {
		if string(o.Script) == string(it.script) {
			return true
		}
	}
	return false
}

// request is one request made to the scanner.
type request struct {
	id    uuid.UUID
	it    item
	start uint32
	pers  bool
	at    time.Time // when it was made
	gone  bool      // its user is
	limit uint32    // then it may be served for the blocks below
}

func (q request) String() string {
	k := "one-shot"
	if q.pers {
		k = "persistent"
	}
	return fmt.Sprintf("%s %s from %d (%s)", k, short(q.it.what), q.start, q.id.String()[:8])
}

func short(s string) string {
	if len(s) > 30 {
		return s[:30] + ".."
	}
	return s
}

// wanted are the reports a request has to result in, given the headers visible.
func (w *world) wanted(q request) []string { return w.wantedBelow(q, w.tip+1) }

func (w *world) wantedBelow(q request, limit uint32) []string {
	var l []string
	for h := q.start; h < limit && h <= w.tip; h++ {
		if h == 0 {
			continue
		}
		b := w.chain.Blks[h]
		n := 0
		for i, t := range b.Txs {
			if q.it.matches(t) {
				l = append(l, key(q, b.IDs[i], b.Hash, h))
				n++
			}
		}
		if n > 0 && !q.pers {
			break
		}
	}
	return l
}

func key(q request, tx, blk hx.Hash, h uint32) string {
	return fmt.Sprintf("%s|%s|tx %s in block %s at %d", q.id, q.it.what, tx, blk, h)
}

// desk keeps the requests made and the reports received.
type desk struct {
	w     *world
	mu    sync.Mutex
	items map[scanner.WatchItem]item
	reqs  []request
	got   map[string]int
	first map[string]time.Time
	n     int
}

func newDesk(w *world) *desk {
	return &desk{w: w, items: map[scanner.WatchItem]item{}, got: map[string]int{}, first: map[string]time.Time{}}
}

func randUUID(r *rand.Rand) (u uuid.UUID) {
	hx.Fill(r, u[:])
	return
}

// watch makes a request.
func (d *desk) watch(s scanner.Service, q request) {
	q.at = time.Now()
	d.mu.Lock()
	d.items[q.it.own] = q.it
	d.reqs = append(d.reqs, q)
	d.mu.Unlock()
	opts := []scanner.ScanRequestOption{scanner.WithRequestID(q.id), scanner.WithStartBlock(q.start), scanner.WithWatchItem(q.it.own)}
	if q.pers {
		opts = append(opts, scanner.WithPersistentWatch())
	}
	d.w.r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	d.w.mu.Lock()
	d.w.c.Log("watch %s, %d headers are known", q, d.w.tip)
	d.w.mu.Unlock()
	s.Watch(opts...)
}

// take handles a report as the user that gets it.
func (d *desk) take(rep scanner.Report) {
	c := d.w.c
	if rep.Request == nil || rep.Transaction == nil || rep.BlockHash == nil {
		c.Violate("incomplete report", "%+v", rep)
		return
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.n++
	it, ok := d.items[rep.Request.Item]
	if !ok {
		it.what = fmt.Sprintf("unspent %x", rep.Request.Item.Bytes()) // of a descriptor
		if rep.Request.Item.EventType() != scanner.UnspentUtxo {
			it.what = fmt.Sprintf("type %d %x", rep.Request.Item.EventType(), rep.Request.Item.Bytes())
		}
	}
	k := key(request{id: rep.Request.ClientID, it: it}, hx.Hash(rep.Transaction.TxHash()), hx.Hash(*rep.BlockHash), rep.BlockHeight)
	d.got[k]++
	if d.got[k] == 1 {
		d.first[k] = time.Now()
	}
	c.Log("report %s", k)
	// in full: not only its identifier
	b, err := rep.Transaction.Serialize()
	if h := d.w.chain.ByHash(hx.Hash(*rep.BlockHash)); err == nil && h != nil {
		for i, id := range h.IDs {
			if id == hx.Hash(rep.Transaction.TxHash()) && string(h.Txs[i].Bytes()) != string(b) {
				c.Violate("altered transaction", "the transaction reported is not the one of the block: %x instead of %x", b, h.Txs[i].Bytes())
			}
		}
	}
}

// listen reads reports until stop is closed.
func (d *desk) listen(ch <-chan scanner.Report, stop <-chan struct{}, delay func() time.Duration) {
	d.w.c.Go(func() {
		for {
			if delay != nil {
				if t := delay(); t > 0 {
					select {
					case <-time.After(t):
					case <-stop:
						return
					}
				}
			}
			select {
			case r := <-ch:
				d.take(r)
			case <-stop:
				return
			}
		}
	})
}

func (d *desk) want() map[string]int {
	d.w.mu.Lock()
	defer d.w.mu.Unlock()
	m := map[string]int{}
	for _, q := range d.reqs {
		limit := d.w.tip + 1
		if q.gone {
			limit = q.limit
		}
		for _, k := range d.w.wantedBelow(q, limit) {
			m[k]++
		}
	}
	return m
}

// must is what has to be reported: users that are gone need nothing.
func (d *desk) must() map[string]int {
	d.w.mu.Lock()
	defer d.w.mu.Unlock()
	m := map[string]int{}
	for _, q := range d.reqs {
		if q.gone {
			continue
		}
		for _, k := range d.w.wanted(q) {
			m[k]++
		}
	}
	return m
}

// leave withdraws the requests of a user.
func (d *desk) leave(s scanner.Service, id uuid.UUID) {
	s.UnWatch(id)
	d.w.mu.Lock()
	limit := d.w.tip + 1
	d.w.c.Log("%s leaves, %d headers are known", id, d.w.tip)
	d.w.mu.Unlock()
	d.mu.Lock()
	defer d.mu.Unlock()
	for i, q := range d.reqs {
		if q.id == id && !q.gone {
			d.reqs[i].gone, d.reqs[i].limit = true, limit
		}
	}
}

// due is the number of reports due.
func (d *desk) due() (n int) {
	for _, k := range d.want() {
		n += k
	}
	return n
}

// compare is the oracle: every report due is there once, and no other.
func (d *desk) compare(when string) (due int) { return d.compareTo(when, d.must()) }

// compareTo is the oracle while some reports can't be there yet: those that must
// be there already are given.
func (d *desk) compareTo(when string, must map[string]int) (due int) {
	want := d.want()
	d.mu.Lock()
	defer d.mu.Unlock()
	var miss, twice, other []string
	for k, n := range must {
		due += n
		if d.got[k] < n {
			miss = append(miss, k)
		}
	}
	for k, n := range d.got {
		if want[k] == 0 {
			other = append(other, k)
		} else if n > want[k] {
			twice = append(twice, k)
		}
	}
	for _, x := range []struct {
		key string
		l   []string
	}{{"match missed", miss}, {"reported again", twice}, {"reported without reason", other}} {
		if len(x.l) > 0 {
			sort.Strings(x.l)
			n := len(x.l)
			if n > 4 {
				x.l = x.l[:4]
			}
			d.w.c.Violate(x.key, "%s: %d of %d reports due: %s", when, n, due, strings.Join(x.l, "; "))
		}
	}
	return due
}

// randRequest is any request.
func (d *desk) randRequest(low, high uint32, ids []uuid.UUID) request {
	w := d.w
	q := request{id: randUUID(w.r), pers: w.r.Intn(2) == 0, start: low}
	if high > low {
		q.start += uint32(w.r.Intn(int(high - low + 1)))
	}
	if len(ids) > 0 && w.r.Intn(3) == 0 {
		q.id = ids[w.r.Intn(len(ids))]
	}
	switch {
	case len(w.prevs) > 0 && w.r.Intn(4) == 0:
		p := w.prevs[w.r.Intn(len(w.prevs))]
		q.it = w.watchItem(nil, &p, false)
	case w.r.Intn(8) == 0:
		q.it = w.watchItem(randScript(w.r), nil, w.r.Intn(2) == 0)
	default:
		q.it = w.watchItem(w.pool[w.r.Intn(len(w.pool))], nil, w.r.Intn(2) == 0)
	}
	return q
}

func ms(r *rand.Rand, n int) time.Duration { return time.Duration(r.Intn(n+1)) * time.Millisecond }
