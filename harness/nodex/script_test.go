package nodex

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// script is one peer's conversation with a node together with what it means:
// the replies and the state the node has to end up with.
type script struct {
	c  *hx.Case
	f  *Fix
	ch *hx.Chain
	p  *hx.Peer

	tip      int // highest header the node holds
	peersTip int

	replies []string // pong, getdata, cfilter, verack, sendheaders in order
	getcf   []string // distinct requests for filters in order
	filters map[hx.Hash][]byte
	pool    map[string]bool
	events  map[string]int // event -> how often
	txs     []*hx.Tx

	calls int // for getheaders since the last look
	ghs   int // seen

	mu       sync.Mutex
	seen     map[string]int // events the subscriber got
	hasPool  bool
	kinds    map[string]int
	effects  int
	corrupts int
	sum      [4]byte // checksum of the message generated last
	// messages sent intact, and the last one that was sent corrupt, which may be
	// sent intact as long as the state has not changed
	past           []*item
	next           *item
	nextAt         int
	versionOfState int
}

// item is one message on the wire.
type item struct {
	name  string
	cmd   string
	pay   []byte
	wire  []byte
	state bool   // looks at or changes the stores or the pool
	apply func() // what it means, nil: nothing
	// cut to fewer bytes than these the payload is malformed also to a lenient
	// decoder (go-elements takes a last byte string that is too short)
	cutTo int
}

func (s *script) frame(it *item) []byte {
	if it.wire != nil {
		return it.wire
	}
	return hx.Frame(s.f.M, it.cmd, it.pay)
}

func newScript(c *hx.Case, pre, more int) *script {
	net := nets[c.Rand.Intn(3)]
	s := &script{c: c, f: NewFix(c, net), ch: hx.NewChain(c.Rand, net, pre+more), tip: pre, peersTip: pre, filters: map[hx.Hash][]byte{}, pool: map[string]bool{}, events: map[string]int{}, seen: map[string]int{}, kinds: map[string]int{}}
	s.f.H.Put(s.ch.Blks[1 : pre+1]...)
	for _, b := range s.ch.Blks[1 : pre+1] {
		if c.Rand.Intn(4) > 0 {
			s.f.F.Store(b.Hash, b.Filter)
			s.filters[b.Hash] = b.Filter
		}
	}
	s.p = s.f.Peer("A", nil)
	return s
}

// connect does the handshake.
func (s *script) connect() bool {
	s.f.Start(s.p)
	if !wait(10*time.Second, func() bool { return len(s.p.Sent("version")) > 0 }) {
		s.c.Violate("no version", "the node does not open the connection with its version")
		return false
	}
	return true
}

func (s *script) version(services uint64) []byte {
	h := s.f.Honest(&World{Ch: s.ch})
	h.Start = int32(s.peersTip)
	h.Services = services
	return h.Version()
}

func (s *script) subscribe() {
	m := s.f.Pool()
	if m == nil {
		return
	}
	s.hasPool = true
	ch := m.AddSubscriber("watch")
	s.c.Go(func() {
		for e := range ch {
			k := "unconfirmed " + e.TxID()
			if e.Type() == node.TxConfirmed {
				k = "confirmed " + e.TxID()
			}
			s.mu.Lock()
			s.seen[k]++
			s.mu.Unlock()
		}
	})
}

var others = []string{"addr", "addrv2", "getaddr", "feefilter", "mempool", "notfound", "alert", "wtxidrelay", "sendaddrv2", "cfheaders", "cfcheckpt", "getdata", "sendheaders", "reject", "filterload", "merkleblock", "x", "averylongcmd", "cmpctblock", "verack2"}

// intact makes a message that means something.
func (s *script) intact(kind int) *item {
	r := s.c.Rand
	it := &item{}
	switch kind {
	case 0:
		n := r.Uint64()
		if r.Intn(6) == 0 {
			n = []uint64{0, 1, 1 << 63, 1<<64 - 1, 0xff}[r.Intn(5)]
		}
		*it = item{name: "ping", cmd: "ping", pay: hx.U64(n), apply: func() { s.replies = append(s.replies, fmt.Sprintf("pong %x", hx.U64(n))) }}
	case 1:
		n := pick(r, 1, 1, 2, 5, 252, 253, 300)
		if r.Intn(30) == 0 {
			n = pick(r, 0, 2000, 65535/20)
		}
		var l []hx.Inv
		for i := 0; i < n; i++ {
			v := hx.Inv{Type: uint32(pick(r, 1, 2, 3, 4, 1|1<<30, 2|1<<30)), Hash: hx.RandHash(r)}
			if i > 0 && r.Intn(20) == 0 {
				v.Hash = l[r.Intn(i)].Hash // of another type
			}
			l = append(l, v)
		}
		p := hx.InvPayload(l)
		*it = item{name: "inv", cmd: "inv", pay: p, apply: func() { s.replies = append(s.replies, "getdata "+hex.EncodeToString(p)) }}
	case 2, 3:
		s.headers(it)
	case 4:
		s.cfilter(it)
	case 5:
		s.tx(it)
	case 6:
		s.block(it)
	case 7:
		s.getcfilters(it)
	case 8:
		switch r.Intn(5) {
		case 0:
			*it = item{name: "pong", cmd: "pong", pay: hx.RandBytes(r, 8)}
		case 1:
			*it = item{name: "verack", cmd: "verack", pay: hx.RandBytes(r, r.Intn(2)*r.Intn(5))}
		case 2:
			*it = item{name: "sendcmpct", cmd: "sendcmpct", pay: append([]byte{byte(r.Intn(2))}, hx.U64(uint64(1+r.Intn(2)))...)}
		case 3:
			g := hx.GetHeaders{Version: 70016, Stop: hx.RandHash(r)}
			for i := r.Intn(40); i > 0; i-- {
				g.Locator = append(g.Locator, hx.RandHash(r))
			}
			*it = item{name: "getheaders", cmd: "getheaders", pay: g.Payload()}
		default:
			*it = item{name: "unsupported", cmd: others[r.Intn(len(others))], pay: hx.RandBytes(r, pick(r, 0, 1, 23, 24, 25, 100, 5000))}
		}
	}
	s.sum = hx.Checksum(it.pay)
	return it
}

func (s *script) headers(it *item) {
	r := s.c.Rand
	left := len(s.ch.Blks) - 1 - s.tip
	from, to := s.tip+1, s.tip
	name := "headers"
	switch k := r.Intn(10); {
	case k < 5 && left > 0:
		to = s.tip + 1 + r.Intn(min(left, 12))
		name = "headers new"
	case k == 5 && left > 0 && s.tip > 2:
		from = s.tip - r.Intn(min(s.tip-1, 5))
		to = s.tip + 1 + r.Intn(min(left, 5))
		name = "headers overlapping"
	case k == 6 && left > 3:
		from = s.tip + 2 + r.Intn(2)
		to = min(from+r.Intn(4), len(s.ch.Blks)-1)
		name = "headers gap"
	case k == 7 && s.tip > 2:
		from = 1 + r.Intn(s.tip)
		to = from + r.Intn(s.tip-from+1)
		name = "headers old"
	case k == 8 && left > 4:
		*it = item{name: "headers unordered", cmd: "headers", state: true, pay: hx.HeadersPayload([]*hx.Header{s.ch.Blks[s.tip+1].H, s.ch.Blks[s.tip+3].H, s.ch.Blks[s.tip+2].H}), apply: func() { s.calls++ }}
		return
	default:
		*it = item{name: "headers empty", cmd: "headers", pay: []byte{0}, state: true}
		return
	}
	var l []*hx.Header
	for i := from; i <= to; i++ {
		l = append(l, s.ch.Blks[i].H)
	}
	*it = item{name: name, cmd: "headers", pay: hx.HeadersPayload(l), state: true, apply: func() {
		s.calls++
		if from > s.tip+1 {
			return
		}
		for i := s.tip + 1; i <= to; i++ {
			s.getcf = append(s.getcf, fmt.Sprintf("%d %s", i, s.ch.Blks[i].Hash))
			s.tip = i
		}
	}}
}

func (s *script) cfilter(it *item) {
	r := s.c.Rand
	var b *hx.Blk
	if r.Intn(5) > 0 {
		b = s.ch.Blks[1+r.Intn(len(s.ch.Blks)-1)]
	} else {
		b = &hx.Blk{Hash: hx.RandHash(r)}
	}
	if s.filters[b.Hash] != nil { // asked for once
		b = &hx.Blk{Hash: hx.RandHash(r)}
	}
	var el [][]byte
	n := pick(r, 0, 1, 2, 10, 100)
	if r.Intn(150) == 0 {
		n = 30000 // 80 kB
	}
	for ; n > 0; n-- {
		el = append(el, hx.RandBytes(r, 1+r.Intn(40)))
	}
	flt := hx.FilterOf(b.Hash, el)
	*it = item{name: "cfilter", cmd: "cfilter", pay: hx.CFilter{Block: b.Hash, Filter: flt}.Payload(), state: true, apply: func() { s.filters[b.Hash] = flt }}
}

func (s *script) tx(it *item) {
	r := s.c.Rand
	var t *hx.Tx
	if len(s.txs) > 0 && r.Intn(3) == 0 {
		t = s.txs[r.Intn(len(s.txs))]
	} else {
		var sc [][]byte
		for i := 1 + r.Intn(3); i > 0; i-- {
			sc = append(sc, hx.P2WPKH(r))
		}
		t = hx.RandTx(r, sc, true)
		s.txs = append(s.txs, t)
	}
	*it = item{name: "tx", cmd: "tx", pay: t.Bytes(), state: true, cutTo: len(t.Plain()), apply: func() { s.addTx(t) }}
}

func (s *script) addTx(t *hx.Tx) {
	id := t.ID().String()
	if !s.pool[id] {
		s.pool[id] = true
		s.events["unconfirmed "+id]++
	}
}

func (s *script) confirm(b *hx.Blk) {
	for _, id := range b.IDs {
		if s.pool[id.String()] {
			delete(s.pool, id.String())
			s.events["confirmed "+id.String()]++
		}
	}
}

// withTxs puts transactions of the pool into a copy of a block.
func (s *script) block(it *item) {
	r := s.c.Rand
	var txs []*hx.Tx
	for _, t := range s.txs {
		if r.Intn(3) == 0 {
			txs = append(txs, t)
		}
	}
	left := len(s.ch.Blks) - 1 - s.tip
	switch k := r.Intn(4); {
	case k < 2: // the next one: the chain goes on with it
		save := s.ch.Blks
		s.ch.Blks = save[:s.tip+1]
		b := s.ch.Next(txs)
		s.ch.Blks = save
		*it = item{name: "block new", cmd: "block", pay: b.Raw(), state: true, cutTo: len(b.H.Bytes()) + 1 + len(b.Txs[0].Plain()), apply: func() {
			s.ch.Blks = append(append([]*hx.Blk(nil), s.ch.Blks[:s.tip+1]...), b)
			for i := 0; i < max(left, 3)+r.Intn(6); i++ {
				s.ch.Add(nil)
			}
			s.calls++
			s.confirm(b)
			s.tip++
			s.getcf = append(s.getcf, fmt.Sprintf("%d %s", s.tip, b.Hash))
		}}
	case k == 2 && s.tip > 0: // an old one
		save := s.ch.Blks
		s.ch.Blks = s.ch.Blks[:1+r.Intn(s.tip)]
		b := s.ch.Next(txs)
		s.ch.Blks = save
		*it = item{name: "block old", cmd: "block", pay: b.Raw(), state: true, cutTo: len(b.H.Bytes()) + 1 + len(b.Txs[0].Plain()), apply: func() { s.calls++; s.confirm(b) }}
	default: // far above
		b := s.ch.Next(txs)
		if int(b.H.Height) <= s.tip+1 {
			*it = item{name: "headers empty", cmd: "headers", pay: []byte{0}, state: true}
			return
		}
		*it = item{name: "block ahead", cmd: "block", pay: b.Raw(), state: true, cutTo: len(b.H.Bytes()) + 1 + len(b.Txs[0].Plain()), apply: func() { s.calls++; s.confirm(b) }}
	}
}

func (s *script) getcfilters(it *item) {
	r := s.c.Rand
	if s.tip == 0 {
		*it = item{name: "headers empty", cmd: "headers", pay: []byte{0}, state: true}
		return
	}
	stop := 1 + r.Intn(s.tip)
	start := r.Intn(stop + 1)
	g := hx.GetCFilters{Start: uint32(start), Stop: s.ch.Blks[stop].Hash}
	name := "getcfilters"
	ok := true
	switch r.Intn(8) {
	case 0:
		g.Stop, ok = hx.RandHash(r), false
	case 1:
		g.Start, ok = uint32(stop+1+r.Intn(5)), false
	case 2:
		g.Type, ok = byte(1+r.Intn(255)), false
	}
	if !ok {
		name = "getcfilters refused"
	}
	*it = item{name: name, cmd: "getcfilters", pay: g.Payload(), state: true, apply: func() {
		if !ok {
			return
		}
		for i := start; i <= stop; i++ {
			b := s.ch.Blks[i]
			if flt := s.filters[b.Hash]; i > 0 && flt != nil {
				s.replies = append(s.replies, "cfilter "+hex.EncodeToString(hx.CFilter{Block: b.Hash, Filter: flt}.Payload()))
			}
		}
	}}
}

// unusable makes a message that no one can use but that has a right header.
func (s *script) unusable() *item {
	r := s.c.Rand
	if r.Intn(4) == 0 {
		var cmd [12]byte
		switch r.Intn(4) {
		case 3: // nearly one that it supports
			x := []string{"ping", "pong", "inv", "tx", "block", "headers", "cfilter", "getcfilters", "version"}[r.Intn(9)]
			switch r.Intn(4) {
			case 0:
				copy(cmd[1+r.Intn(12-len(x)):], x)
			case 1:
				copy(cmd[:], strings.ToUpper(x[:1])+x[1:])
			case 2:
				copy(cmd[:], x+" ")
			default:
				copy(cmd[:], x[:len(x)-1])
			}
			p := s.intact(r.Intn(9)).pay
			return &item{name: "unknown command", wire: hx.RawFrame(s.f.M, cmd, uint32(len(p)), hx.Checksum(p), p)}
		case 0:
			hx.Fill(r, cmd[:])
		case 1:
			copy(cmd[:], "ping\x00ping")
		default:
			copy(cmd[:], others[r.Intn(len(others))])
		}
		p := hx.RandBytes(r, pick(r, 0, 1, 8, 24, 90, 3000, 70000))
		return &item{name: "unknown command", wire: hx.RawFrame(s.f.M, cmd, uint32(len(p)), hx.Checksum(p), p)}
	}
	k := r.Intn(9)
	switch k {
	case 8: // not even answered when whole
		for {
			if it := s.intact(8); len(it.pay) > 1 && it.name != "verack" && it.name != "unsupported" {
				n := r.Intn(len(it.pay))
				if it.cmd == "getheaders" {
					n = r.Intn(4)
				}
				return &item{name: "truncated " + it.cmd, cmd: it.cmd, pay: it.pay[:n], state: true}
			}
		}
	case 7:
		// a whole message inside of one nobody understands must stay asleep
		in := hx.Frame(s.f.M, "ping", hx.U64(r.Uint64()))
		return &item{name: "nested", cmd: others[r.Intn(len(others))], pay: bytes.Repeat(in, 1+r.Intn(3))}
	}
	var it *item
	for {
		it = s.intact([]int{0, 1, 2, 4, 5, 6, 7}[k])
		k = r.Intn(7)
		if len(it.pay) > 1 {
			break
		}
	}
	n := r.Intn(len(it.pay))
	if it.cutTo > 0 {
		n = r.Intn(it.cutTo)
	}
	switch it.cmd {
	case "tx", "block", "headers", "cfilter", "inv", "getcfilters", "ping":
	default:
		n = 0
	}
	p := it.pay[:n]
	if r.Intn(8) == 0 {
		p = nil
	}
	return &item{name: "truncated " + it.cmd, cmd: it.cmd, pay: p, state: true}
}

// corrupt makes an effective message that must not count.
func (s *script) corrupt() *item {
	r := s.c.Rand
	var it *item
	former := s.sum                        // of the message generated before
	if len(s.past) > 0 && r.Intn(4) == 0 { // one that has been sent intact
		it = s.past[r.Intn(len(s.past))]
	}
	for it == nil || it.cmd == "headers" && len(it.pay) < 2 {
		it = s.intact(pick(r, 0, 1, 2, 4, 5, 6, 7, 8))
		s.next, s.nextAt = it, s.versionOfState // may come intact soon
	}
	s.corrupts++
	p := append([]byte(nil), it.pay...)
	var cmd [12]byte
	copy(cmd[:], it.cmd)
	sum := hx.Checksum(p)
	m := s.f.M
	why := ""
	switch r.Intn(13) {
	case 6:
		why = "checksum of the one before"
		sum = former
	case 7:
		why = "checksum backwards"
		sum[0], sum[1], sum[2], sum[3] = sum[3], sum[2], sum[1], sum[0]
	case 8:
		why = "hashed once"
		x := sha256.Sum256(p)
		copy(sum[:], x[:])
	case 9:
		why = "bytes too many"
		p = append(p, make([]byte, 1+r.Intn(40))...)
	case 10:
		why = "bytes too few"
		p = p[:r.Intn(len(p)+1)]
	case 11:
		why = "payload off by bits"
		for i := 1 + r.Intn(4); i > 0 && len(p) > 0; i-- {
			x := byte(1) << r.Intn(8)
			p[r.Intn(len(p))] ^= x
			p[r.Intn(len(p))] ^= x
		}
	case 12:
		why = "last byte off"
		if len(p) > 0 {
			p[len(p)-1] ^= byte(1 + r.Intn(255))
		}
	case 0:
		why = "checksum off by a bit"
		sum[r.Intn(4)] ^= 1 << r.Intn(8)
	case 1:
		why = "payload off by a bit"
		if len(p) == 0 {
			sum[0] ^= 1
		} else {
			p[r.Intn(len(p))] ^= 1 << r.Intn(8)
		}
	case 2:
		why = "checksum zero"
		sum = [4]byte{}
	case 3:
		why = "checksum of nothing"
		sum = hx.Checksum(nil)
	default:
		why = "other network"
		for m == s.f.M {
			m = hx.Magics[nets[r.Intn(3)]]
		}
		if r.Intn(4) == 0 {
			sum = [4]byte{1, 2, 3, 4}
		}
	}
	if m == s.f.M && sum == hx.Checksum(p) {
		sum[3] ^= 0x80
	}
	return &item{name: "corrupt " + it.name + " " + why, wire: hx.RawFrame(m, cmd, uint32(len(p)), sum, p), state: true}
}

// feed writes the items' bytes in segments.
func (s *script) feed(items []*item, cut func(b []byte) [][]byte, pause func() time.Duration) {
	var b []byte
	for _, it := range items {
		s.c.Log("A -> node: %s %d bytes", it.name, len(it.pay))
		s.kinds[it.name]++
		b = append(b, s.frame(it)...)
		if !strings.HasPrefix(it.name, "corrupt") {
			s.past = append(s.past, it)
		}
		if it.apply != nil {
			it.apply()
			s.effects++
			if it.state {
				s.versionOfState++
			}
		}
	}
	segs := [][]byte{b}
	if cut != nil {
		segs = cut(b)
	}
	for _, x := range segs {
		s.p.C.Feed(x)
		if pause != nil {
			if d := pause(); d > 0 {
				time.Sleep(d)
			}
		}
	}
}

// look compares what the node has sent with the script.
func (s *script) look(when string) bool {
	s.c.Settle(2 * time.Second)
	c := s.c
	if s.p.C.IsClosed() {
		c.Violate("connection closed", "%s: the node has closed the connection", when)
		return false
	}
	var got, cf []string
	known := map[string]bool{}
	gh, vers := 0, 0
	for i, m := range s.p.Sent() {
		if err := m.Check(s.f.M); err != nil {
			c.Violate("malformed message", "%s: %v", when, err)
			return false
		}
		switch m.Cmd {
		case "version":
			vers++
			if vers > 1 || i > 0 {
				c.Violate("version sent again", "%s: message %d of the node is another version", when, i)
				return false
			}
			if !checkVersion(c, s.f, m) {
				return false
			}
		case "verack", "sendheaders":
			got = append(got, m.Cmd)
		case "pong", "getdata", "cfilter":
			got = append(got, m.Cmd+" "+hex.EncodeToString(m.Payload))
		case "getcfilters":
			g, err := hx.ParseGetCFilters(m.Payload)
			if err != nil || g.Type != 0 {
				c.Violate("malformed getcfilters", "%s: %v %x", when, err, m.Payload)
				return false
			}
			k := fmt.Sprintf("%d %s", g.Start, g.Stop)
			if !known[k] {
				known[k] = true
				cf = append(cf, k)
			}
		case "getheaders":
			gh++
		case "ping":
		default:
			c.Violate("unsolicited "+m.Cmd, "%s: the node sends %q: %x", when, m.Cmd, m.Payload)
			return false
		}
	}
	if l := s.p.Left(); len(l) > 0 {
		c.Violate("incomplete message", "%s: the node has sent %d bytes that are no message: %x", when, len(l), l)
		return false
	}
	if d := diff(s.replies, got); d != "" {
		c.Violate("wrong replies "+when, "%s: the replies are not those of the messages: %s", when, d)
		return false
	}
	if s.tip > 0 {
		// requests for headers that were known before are not wrong
		var l []string
		want := map[string]bool{}
		for _, k := range s.getcf {
			want[k] = true
		}
		for _, k := range cf {
			if want[k] {
				l = append(l, k)
			} else {
				var hgt int
				var x string
				fmt.Sscanf(k, "%d %s", &hgt, &x)
				s.f.H.mu.Lock()
				hh, ok := s.f.H.Heights[hx.HashFromStr(x)]
				s.f.H.mu.Unlock()
				if !ok || int(hh) != hgt {
					c.Violate("unsolicited getcfilters", "%s: a filter nobody offered is requested: %s", when, k)
					return false
				}
			}
		}
		if d := diff(s.getcf, l); d != "" {
			c.Violate("wrong requests for filters", "%s: %s", when, d)
			return false
		}
	}
	if gh-s.ghs > s.calls {
		c.Violate("unsolicited getheaders", "%s: %d requests for headers, nothing called for more than %d", when, gh-s.ghs, s.calls)
		return false
	}
	s.ghs, s.calls = gh, 0
	return s.lookStores(when)
}

func (s *script) lookStores(when string) bool {
	c := s.c
	// headers
	if n := s.f.H.Count(); n != s.tip {
		c.Violate("wrong headers stored", "%s: %d headers are stored instead of %d", when, n, s.tip)
		return false
	}
	for i := 1; i <= s.tip; i++ {
		if !s.f.H.Has(s.ch.Blks[i].Hash) {
			c.Violate("wrong headers stored", "%s: header %d is not stored", when, i)
			return false
		}
	}
	// filters
	for h, want := range s.filters {
		if got := s.f.F.Of(h); !bytes.Equal(got, want) {
			c.Violate("wrong filter stored", "%s: the filter of %s is %x instead of %x", when, h, got, want)
			return false
		}
	}
	for _, p := range s.f.F.All() {
		if w, ok := s.filters[p.Block]; !ok || !bytes.Equal(w, p.Filter) || p.Type != 0 {
			c.Violate("wrong filter stored", "%s: a filter (type %d) is stored for %s that was not sent: %x", when, p.Type, p.Block, p.Filter)
			return false
		}
	}
	if !s.hasPool {
		return true
	}
	pool := s.f.Pool().GetMemPool()
	for id := range s.pool {
		if _, ok := pool[id]; !ok {
			c.Violate("transaction missing in the mem-pool", "%s: %s was received and not confirmed", when, id)
			return false
		}
	}
	for id := range pool {
		if !s.pool[id] {
			c.Violate("wrong transaction in the mem-pool", "%s: %s", when, id)
			return false
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, n := range s.events {
		if s.seen[k] != n {
			c.Violate("wrong mem-pool events", "%s: %d times %q instead of %d", when, s.seen[k], k, n)
			return false
		}
	}
	for k, n := range s.seen {
		if s.events[k] != n {
			c.Violate("wrong mem-pool events", "%s: %d times %q instead of %d", when, n, k, s.events[k])
			return false
		}
	}
	return true
}

func checkVersion(c *hx.Case, f *Fix, m hx.Sent) bool {
	v, err := hx.ParseVersion(m.Payload)
	if err != nil {
		c.Violate("malformed version", "%v: %x", err, m.Payload)
		return false
	}
	if v.UserAgent != f.UA {
		c.Violate("wrong user agent", "the version says %q instead of %q", v.UserAgent, f.UA)
		return false
	}
	if v.Services&cfService == 0 {
		c.Violate("service not offered", "the services of the node are %x", v.Services)
		return false
	}
	return true
}

func diff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("number %d of %d is %.200s, expected %.200s (%d)", i, len(got), g, w, len(want))
		}
	}
	return ""
}

func (s *script) sig() string {
	var l []string
	for k, n := range s.kinds {
		l = append(l, fmt.Sprintf("%s:%d", k, n))
	}
	sortStrings(l)
	return strings.Join(l, ",")
}

func (s *script) counts() {
	for k, n := range s.kinds {
		if i := strings.Index(k, " "); strings.HasPrefix(k, "corrupt ") {
			k = "messages corrupt"
		} else if strings.HasPrefix(k, "truncated ") {
			k = "messages truncated"
		} else if i > 0 {
			k = "messages " + k
		} else {
			k = "messages " + k
		}
		s.c.Count(k, n)
	}
	s.c.Count("replies checked", len(s.replies))
	s.c.Count("headers stored", s.tip)
	s.c.Count("mem-pool events", len(s.seen))
}
