package nodex

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

const cfService = 1 << 6

// HRepo records what the node does with its header store and watches it.
type HRepo struct {
	repository.BlockHeaderRepository
	c       *hx.Case
	mu      sync.Mutex
	have    map[uint32][]hx.Hash
	Order   []hx.Hash // written, in order
	Heights map[hx.Hash]uint32
	First   map[hx.Hash]time.Time
	tip     uint32
	lowest  uint32
	Writes  int
	Failed  int
	Fail    func(op string, n int) error // may be nil
	Wait    func() time.Duration         // virtual time a call takes
	ops     int
	Watch   bool // C07
}

func NewHRepo(c *hx.Case) *HRepo {
	return &HRepo{BlockHeaderRepository: inmemory.NewHeaderInmemory(), c: c, have: map[uint32][]hx.Hash{}, Heights: map[hx.Hash]uint32{}, First: map[hx.Hash]time.Time{}}
}

var errStore = errors.New("store is not available")

func (h *HRepo) op(op string) error {
	h.mu.Lock()
	h.ops++
	n := h.ops
	f, w := h.Fail, h.Wait
	h.mu.Unlock()
	if w != nil {
		if d := w(); d > 0 {
			time.Sleep(d)
		}
	}
	if f != nil {
		if err := f(op, n); err != nil {
			h.mu.Lock()
			h.Failed++
			h.mu.Unlock()
			h.c.Log("store: %s fails", op)
			return err
		}
	}
	return nil
}

func (h *HRepo) ChainTip(ctx context.Context) (*block.Header, error) {
	if err := h.op("tip"); err != nil {
		return nil, err
	}
	return h.BlockHeaderRepository.ChainTip(ctx)
}

func (h *HRepo) GetBlockHeader(ctx context.Context, x chainhash.Hash) (*block.Header, error) {
	if err := h.op("get"); err != nil {
		return nil, err
	}
	return h.BlockHeaderRepository.GetBlockHeader(ctx, x)
}

func (h *HRepo) GetBlockHashByHeight(ctx context.Context, n uint32) (*chainhash.Hash, error) {
	if err := h.op("hash"); err != nil {
		return nil, err
	}
	return h.BlockHeaderRepository.GetBlockHashByHeight(ctx, n)
}

func (h *HRepo) LatestBlockLocator(ctx context.Context) (blockchain.BlockLocator, error) {
	if err := h.op("locator"); err != nil {
		return nil, err
	}
	return h.BlockHeaderRepository.LatestBlockLocator(ctx)
}

func (h *HRepo) HasAllAncestors(ctx context.Context, x chainhash.Hash) (bool, error) {
	if err := h.op("ancestors"); err != nil {
		return false, err
	}
	return h.BlockHeaderRepository.HasAllAncestors(ctx, x)
}

func (h *HRepo) WriteHeaders(ctx context.Context, hs ...block.Header) error {
	if err := h.op("write"); err != nil {
		return err
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if err := h.BlockHeaderRepository.WriteHeaders(ctx, hs...); err != nil {
		return err
	}
	h.Writes++
	for i := range hs {
		x, err := hs[i].Hash()
		if err != nil {
			h.c.Violate("unhashable header stored", "a header that cannot be hashed is written: %v", err)
			continue
		}
		h.add(hx.Hash(x), hs[i].Height)
	}
	h.watch()
	if f := h.Fail; f != nil {
		if err := f("written", h.Writes); err != nil { // it fails to say that it is done
			h.Failed++
			h.c.Log("store: write is done and fails")
			return err
		}
	}
	return nil
}

func (h *HRepo) add(x hx.Hash, height uint32) {
	if _, ok := h.Heights[x]; ok {
		return
	}
	h.Heights[x] = height
	h.First[x] = time.Now()
	h.have[height] = append(h.have[height], x)
	h.Order = append(h.Order, x)
}

// watch is the online monitor of C07.
func (h *HRepo) watch() {
	if len(h.have) == 0 {
		return
	}
	lo, hi := uint32(1<<32-1), uint32(0)
	for k := range h.have {
		if k < lo {
			lo = k
		}
		if k > hi {
			hi = k
		}
	}
	if h.Watch && int(hi-lo)+1 != len(h.have) {
		var l []int
		for k := range h.have {
			l = append(l, int(k))
		}
		sort.Ints(l)
		h.c.Violate("gap in the stored headers", "the stored heights are not contiguous: %v", ranges(l))
	}
	if h.Watch && hi < h.tip {
		h.c.Violate("chain tip goes back", "the tip was at %d and is at %d", h.tip, hi)
	}
	h.tip = hi
	h.lowest = lo
}

func ranges(l []int) string {
	s := ""
	for i := 0; i < len(l); {
		j := i
		for j+1 < len(l) && l[j+1] == l[j]+1 {
			j++
		}
		s += fmt.Sprintf("[%d..%d]", l[i], l[j])
		i = j + 1
	}
	return s
}

// Put fills the store without the node.
func (h *HRepo) Put(bs ...*hx.Blk) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, b := range bs {
		if err := h.BlockHeaderRepository.WriteHeaders(context.Background(), *b.Header()); err != nil {
			panic(err)
		}
		h.add(b.Hash, b.H.Height)
	}
	h.watch()
}

func (h *HRepo) Has(x hx.Hash) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	_, ok := h.Heights[x]
	return ok
}

func (h *HRepo) Count() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.Heights)
}

func (h *HRepo) Tip() uint32 {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.tip
}

func (h *HRepo) List() []hx.Hash {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]hx.Hash(nil), h.Order...)
}

// FRepo records what the node does with its filter store.
type FRepo struct {
	repository.FilterRepository
	c    *hx.Case
	mu   sync.Mutex
	Puts []FPut
	Lost []FPut // could not be put
	Fail func(op string, n int) error
	Wait func() time.Duration
	ops  int
}

type FPut struct {
	Type   byte
	Block  hx.Hash
	Filter []byte
}

func NewFRepo(c *hx.Case) *FRepo { return &FRepo{FilterRepository: inmemory.NewFilterInmemory(), c: c} }

func (f *FRepo) op(op string) error {
	f.mu.Lock()
	f.ops++
	n := f.ops
	g, w := f.Fail, f.Wait
	f.mu.Unlock()
	if w != nil {
		if d := w(); d > 0 {
			time.Sleep(d)
		}
	}
	if g != nil {
		return g(op, n)
	}
	return nil
}

func (f *FRepo) PutFilter(ctx context.Context, e *repository.FilterEntry) error {
	if err := f.op("put"); err != nil {
		p := FPut{Type: byte(e.Key.FilterType), Filter: append([]byte(nil), e.NBytes...)}
		copy(p.Block[:], e.Key.BlockHash)
		f.mu.Lock()
		f.Lost = append(f.Lost, p)
		f.mu.Unlock()
		return err
	}
	if err := f.FilterRepository.PutFilter(ctx, e); err != nil {
		return err
	}
	p := FPut{Type: byte(e.Key.FilterType), Filter: append([]byte(nil), e.NBytes...)}
	copy(p.Block[:], e.Key.BlockHash)
	if len(e.Key.BlockHash) != 32 {
		f.c.Violate("filter stored under no block", "the key of a stored filter has %d bytes", len(e.Key.BlockHash))
	}
	f.mu.Lock()
	f.Puts = append(f.Puts, p)
	f.mu.Unlock()
	return nil
}

func (f *FRepo) GetFilter(ctx context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	if err := f.op("get"); err != nil {
		return nil, err
	}
	return f.FilterRepository.GetFilter(ctx, k)
}

// Of reads what is stored for a block.
func (f *FRepo) Of(h hx.Hash) []byte {
	e, err := f.FilterRepository.GetFilter(context.Background(), repository.FilterKey{BlockHash: append([]byte(nil), h[:]...), FilterType: repository.RegularFilter})
	if err != nil {
		return nil
	}
	return e.NBytes
}

func (f *FRepo) All() []FPut {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]FPut(nil), f.Puts...)
}

// Store puts a filter without the node.
func (f *FRepo) Store(h hx.Hash, filter []byte) {
	err := f.FilterRepository.PutFilter(context.Background(), &repository.FilterEntry{Key: repository.FilterKey{BlockHash: append([]byte(nil), h[:]...)}, NBytes: filter})
	if err != nil {
		panic(err)
	}
}

// Fix is a node with stores and peers of the harness.
type Fix struct {
	C     *hx.Case
	Net   string
	M     hx.Magic
	UA    string
	H     *HRepo
	F     *FRepo
	N     node.NodeService
	mu    sync.Mutex
	Peers []*hx.Peer
	start chan error
	began bool
}

var nets = []string{"liquid", "testnet", "regtest"}

func NewFix(c *hx.Case, net string) *Fix {
	f := &Fix{C: c, Net: net, M: hx.Magics[net], UA: fmt.Sprintf("/neutrino-elements:%d.0/", c.Rand.Intn(9)), H: NewHRepo(c), F: NewFRepo(c), start: make(chan error, 1)}
	n, err := node.New(node.NodeConfig{Network: net, UserAgent: f.UA, FiltersDB: f.F, BlockHeadersDB: f.H})
	if err != nil {
		c.Violate("node.New fails", "node.New: %v", err)
		c.Abort()
	}
	f.N = n
	c.Cleanup(f.end)
	return f
}

// end stops the node, then the peers.
func (f *Fix) end() {
	f.H.mu.Lock()
	f.H.Fail, f.H.Wait = nil, nil
	f.H.mu.Unlock()
	f.F.mu.Lock()
	f.F.Fail, f.F.Wait = nil, nil
	f.F.mu.Unlock()
	f.N.Stop()
	time.Sleep(time.Second)
	synctest.Wait()
	f.mu.Lock()
	ps := append([]*hx.Peer(nil), f.Peers...)
	f.mu.Unlock()
	for _, p := range ps {
		p.C.EndRemote(hx.ErrReset)
		p.C.Close()
		p.Stop()
	}
}

// Peer makes a peer (not connected yet).
func (f *Fix) Peer(name string, on func(p *hx.Peer, m hx.Sent)) *hx.Peer {
	p := hx.NewPeer(f.C, name, on)
	f.mu.Lock()
	f.Peers = append(f.Peers, p)
	f.mu.Unlock()
	return p
}

// Start starts the node with the peer; the result is in f.Started.
func (f *Fix) Start(p *hx.Peer) {
	a, undo := hx.Listen(func() (net.Conn, error) { return p.C, nil })
	p.Addr = a
	f.began = true
	n, started := f.N, f.start
	f.C.Go(func() {
		defer undo()
		err := n.Start(a)
		f.C.Log("Start returns %v", err)
		started <- err
	})
}

// Again ends the node and its peers and makes a new one on the same stores.
func (f *Fix) Again() {
	f.end()
	f.mu.Lock()
	f.Peers = nil
	f.mu.Unlock()
	n, err := node.New(node.NodeConfig{Network: f.Net, UserAgent: f.UA, FiltersDB: f.F, BlockHeadersDB: f.H})
	if err != nil {
		f.C.Violate("node.New fails", "node.New: %v", err)
		f.C.Abort()
	}
	f.N, f.start, f.began = n, make(chan error, 1), false
}

// Started says whether Start has returned and what.
func (f *Fix) Started() (bool, error) {
	select {
	case err := <-f.start:
		f.start <- err
		return true, err
	default:
		return false, nil
	}
}

// Connect adds another outbound peer.
func (f *Fix) Connect(p *hx.Peer) error {
	a, undo := hx.Listen(func() (net.Conn, error) { return p.C, nil })
	defer undo()
	p.Addr = a
	pp, err := peer.NewElementsPeer(a)
	if err != nil {
		return err
	}
	return f.N.AddOutboundPeer(pp)
}

// Pool is the node's mem-pool, nil if it cannot be found.
func (f *Fix) Pool() *node.MemPool {
	v := reflect.ValueOf(f.N)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	v = v.Elem()
	t := reflect.TypeOf(node.MemPool{})
	for i := 0; i < v.NumField(); i++ {
		fv := v.Field(i)
		if fv.Type() == t {
			return (*node.MemPool)(unsafe.Pointer(fv.UnsafeAddr()))
		}
		if fv.Type() == reflect.PtrTo(t) && !fv.IsNil() {
			return (*node.MemPool)(unsafe.Pointer(fv.Pointer()))
		}
	}
	return nil
}

// World is the chain the honest peers serve.
type World struct {
	mu sync.Mutex
	Ch *hx.Chain
}

func (w *World) Do(f func(ch *hx.Chain)) {
	w.mu.Lock()
	defer w.mu.Unlock()
	f(w.Ch)
}

// Honest is how an honest peer behaves.
type Honest struct {
	F        *Fix
	W        *World
	Batch    int // headers per message
	Delay    func() time.Duration
	Start    int32 // announced height, -1: the chain's
	Services uint64
	NoPong   bool
	NoCF     bool
	NoHead   bool
	VerFirst bool // verack before version
	Silent   bool // does not answer the version
	// Gate may swallow a message (true: swallowed)
	Gate func(p *hx.Peer, m hx.Sent) bool
}

func (f *Fix) Honest(w *World) *Honest {
	return &Honest{F: f, W: w, Batch: 2000, Start: -1, Services: cfService | 9}
}

func (h *Honest) Version() []byte {
	st := h.Start
	if st < 0 {
		h.W.Do(func(ch *hx.Chain) { st = int32(ch.Height()) })
	}
	return hx.Version{Version: 70016, Services: h.Services, Time: 1700000000, RecvServices: cfService, RecvIP: hx.V4(127, 0, 0, 1), RecvPort: 18886,
		FromServices: h.Services, FromIP: hx.V4(10, 0, 0, 1), FromPort: 18886, Nonce: 77, UserAgent: "/Elements Core:22.0/", StartHeight: st, Relay: 1}.Payload()
}

func (h *Honest) On(p *hx.Peer, m hx.Sent) {
	if h.Gate != nil && h.Gate(p, m) {
		return
	}
	if h.Delay != nil && m.Cmd != "cfilter" && m.Cmd != "tx" && m.Cmd != "pong" {
		if d := h.Delay(); d > 0 {
			time.Sleep(d)
		}
	}
	M := h.F.M
	switch m.Cmd {
	case "version":
		if h.Silent {
			return
		}
		if h.VerFirst {
			p.Msg(M, "verack", nil)
			p.Msg(M, "version", h.Version())
		} else {
			p.Msg(M, "version", h.Version())
			p.Msg(M, "verack", nil)
		}
	case "ping":
		if !h.NoPong {
			p.Msg(M, "pong", m.Payload)
		}
	case "getheaders":
		if h.NoHead {
			return
		}
		g, err := hx.ParseGetHeaders(m.Payload)
		if err != nil {
			h.F.C.Violate("malformed getheaders", "%v: %x", err, m.Payload)
			return
		}
		var l []*hx.Header
		h.W.Do(func(ch *hx.Chain) { l = ch.After(g.Locator, g.Stop, h.Batch) })
		p.Msg(M, "headers", hx.HeadersPayload(l))
	case "getcfilters":
		if h.NoCF {
			return
		}
		g, err := hx.ParseGetCFilters(m.Payload)
		if err != nil {
			h.F.C.Violate("malformed getcfilters", "%v: %x", err, m.Payload)
			return
		}
		var l []hx.CFilter
		h.W.Do(func(ch *hx.Chain) {
			b := ch.ByHash(g.Stop)
			if b == nil {
				return
			}
			for i := g.Start; i <= b.H.Height; i++ {
				l = append(l, hx.CFilter{Type: g.Type, Block: ch.Blks[i].Hash, Filter: ch.Blks[i].Filter})
			}
		})
		for _, cf := range l {
			p.Msg(M, "cfilter", cf.Payload())
		}
	case "getdata":
		l, err := hx.ParseInv(m.Payload)
		if err != nil {
			h.F.C.Violate("malformed getdata", "%v: %x", err, m.Payload)
			return
		}
		for _, v := range l {
			var b *hx.Blk
			h.W.Do(func(ch *hx.Chain) { b = ch.ByHash(v.Hash) })
			if b != nil && v.Type&0xff == 2 {
				p.Msg(M, "block", b.Raw())
			}
		}
	}
}

// Peer makes an honest peer.
func (h *Honest) Peer(name string) *hx.Peer { return h.F.Peer(name, h.On) }

// wait lets virtual time pass until ok or the limit.
func wait(limit time.Duration, ok func() bool) bool {
	end := time.Now().Add(limit)
	for {
		synctest.Wait()
		if ok() {
			return true
		}
		if !time.Now().Before(end) {
			return false
		}
		time.Sleep(250 * time.Millisecond)
	}
}

func pick(r *rand.Rand, l ...int) int { return l[r.Intn(len(l))] }

// lockedRand is a source of several goroutines.
type lockedRand struct {
	mu sync.Mutex
	r  *rand.Rand
}

func newLocked(r *rand.Rand) *lockedRand { return &lockedRand{r: rand.New(rand.NewSource(r.Int63()))} }

func (l *lockedRand) Intn(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Intn(n)
}

// ms returns a source of delays up to n milliseconds (0: none).
func (l *lockedRand) ms(n int) func() time.Duration {
	if n == 0 {
		return nil
	}
	return func() time.Duration { return time.Duration(l.Intn(n*1000)) * time.Microsecond }
}

// rand2 is a source of its own.
func rand2(l *lockedRand) *rand.Rand { return rand.New(rand.NewSource(int64(l.Intn(1 << 40)))) }
