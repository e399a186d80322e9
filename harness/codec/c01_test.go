package codec

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"testing"
	"time"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

var nets = []string{"liquid", "regtest", "testnet"}

// counts on both sides of where the varint changes size
func count(r *rand.Rand, max int) int {
	l := []int{0, 1, 2, 3, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 499, 500, 1999, 2000, 0xfffe, 0xffff, 0x10000, 0x10001, 70000}
	for {
		n := l[r.Intn(len(l))]
		if r.Intn(3) == 0 {
			n = r.Intn(600)
		}
		if n <= max {
			return n
		}
	}
}

// reader returns the bytes cut into segments, the last one possibly with EOF.
type reader struct {
	b     []byte
	r     *rand.Rand
	mode  int
	reads int
}

func (s *reader) Read(p []byte) (int, error) {
	s.reads++
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	switch s.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.r.Intn(40)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.mode == 3 && len(s.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func newReader(c *hx.Case, b []byte) *reader {
	return &reader{b: b, r: c.Rand, mode: c.Rand.Intn(4)}
}

// encoded checks a message the library built.
func encoded(c *hx.Case, m *protocol.Message, err error, net, cmd string, want []byte) []byte {
	c.Count("messages encoded", 1)
	if err != nil {
		c.Violate("encode "+cmd, "building %s fails: %v", cmd, err)
		return nil
	}
	got, err := binary.Marshal(m)
	if err != nil {
		c.Violate("encode "+cmd, "marshalling %s fails: %v", cmd, err)
		return nil
	}
	msg, rest, ok := hx.Take(got)
	if !ok || len(rest) > 0 {
		c.Violate("encode "+cmd, "%s: length in the header is not that of the payload: %x", cmd, head(got))
		return nil
	}
	if msg.Cmd != cmd {
		c.Violate("encode "+cmd, "command is %q instead of %q", msg.Cmd, cmd)
	}
	if err := msg.Check(hx.Magics[net]); err != nil {
		c.Violate("encode "+cmd, "%s: %v", cmd, err)
	}
	if want != nil && !bytes.Equal(msg.Payload, want) {
		c.Violate("encode "+cmd, "payload of %s (%d bytes, expected %d): got %s expected %s", cmd, len(msg.Payload), len(want), diff(msg.Payload, want), diff(want, msg.Payload))
	}
	// marshalling by value is the same
	got2, err := binary.Marshal(*m)
	if err != nil || !bytes.Equal(got, got2) {
		c.Violate("encode "+cmd, "%s by value marshals differently: %v", cmd, err)
	}
	return msg.Payload
}

func head(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func diff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 8
	if from < 0 {
		from = 0
	}
	return fmt.Sprintf("[..%d] %x", from, head(a[from:]))
}

// decode decodes payload followed by other bytes and checks what was read.
func decode(c *hx.Case, what string, v interface{}, payload []byte, toEOF bool) bool {
	c.Count("messages decoded", 1)
	tail := hx.RandBytes(c.Rand, c.Rand.Intn(50))
	if toEOF {
		tail = nil
	}
	rd := newReader(c, hx.Cat(payload, tail))
	if err := binary.NewDecoder(rd).Decode(v); err != nil {
		c.Violate("decode "+what, "valid %s of %d bytes is refused (segments mode %d): %v; %x", what, len(payload), rd.mode, err, head(payload))
		return false
	}
	if !bytes.Equal(rd.b, tail) {
		c.Violate("decode "+what, "%s of %d bytes: %d bytes left of the %d that follow", what, len(payload), len(rd.b), len(tail))
		return false
	}
	return true
}

func eq(c *hx.Case, what, field string, got, want interface{}) {
	g, w := fmt.Sprintf("%v", got), fmt.Sprintf("%v", want)
	if g != w {
		if len(g) > 200 {
			g = g[:200]
		}
		if len(w) > 200 {
			w = w[:200]
		}
		c.Violate("decode "+what, "%s of %s is %s instead of %s", field, what, g, w)
	}
}

func vint(c *hx.Case, what string, v protocol.VarInt, want int) {
	n, err := v.Int()
	if err != nil || n != want {
		c.Violate("decode "+what, "%s is %d (%v) instead of %d", what, n, err, want)
	}
}

var kinds = []struct {
	name string
	f    func(c *hx.Case)
}{
	{"version", func(c *hx.Case) {
		r := c.Rand
		net := nets[r.Intn(3)]
		ua := string(bytes.Repeat([]byte{'a' + byte(r.Intn(26))}, count(r, 70000)))
		ip := [4]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
		port := uint16(r.Intn(65536))
		sf := protocol.ServiceFlag(r.Uint64())
		if r.Intn(2) == 0 {
			sf = protocol.SFNodeCF
		}
		t0 := time.Now().Unix()
		m, err := protocol.NewVersionMsg(hx.Magics[net], ua, ip, port, sf)
		t1 := time.Now().Unix()
		p := encoded(c, m, err, net, "version", nil)
		if p == nil {
			return
		}
		v, err := hx.ParseVersion(p)
		if err != nil {
			c.Violate("encode version", "user agent of %d bytes: %v: %x", len(ua), err, head(p))
			return
		}
		if !bytes.Equal(v.Payload(), p) {
			c.Violate("encode version", "user agent of %d bytes: %x is not canonical", len(ua), head(p))
		}
		if v.UserAgent != ua || v.RecvIP != hx.V4(ip[0], ip[1], ip[2], ip[3]) || v.RecvPort != port || v.Services != uint64(sf) || v.Time < t0 || v.Time > t1 || v.Relay > 1 || v.Version < 70015 ||
			!bytes.Equal(v.FromIP[:12], v.RecvIP[:12]) {
			c.Violate("encode version", "fields %+v for %q %v %d %x at %d..%d", v, head([]byte(ua)), ip, port, uint64(sf), t0, t1)
		}
		// and a version of somebody else
		w := hx.Version{Version: int32(r.Uint32()), Services: r.Uint64(), Time: int64(r.Uint64()), RecvServices: r.Uint64(), RecvIP: hx.V4(byte(r.Intn(256)), 2, 3, byte(r.Intn(256))), RecvPort: uint16(r.Intn(65536)),
			FromServices: r.Uint64(), FromIP: hx.V4(9, byte(r.Intn(256)), 7, 6), FromPort: uint16(r.Intn(65536)), Nonce: r.Uint64(), UserAgent: ua, StartHeight: int32(r.Uint32()), Relay: byte(r.Intn(2))}
		var d protocol.MsgVersion
		if decode(c, "version", &d, w.Payload(), false) {
			eq(c, "version", "fields", fmt.Sprintln(d.Version, d.Services, d.Timestamp, d.AddrRecv.Services, d.AddrRecv.IP, d.AddrRecv.Port, d.AddrFrom.Services, d.AddrFrom.IP, d.AddrFrom.Port, d.Nonce, d.StartHeight, d.Relay),
				fmt.Sprintln(w.Version, w.Services, w.Time, w.RecvServices, ipstr(w.RecvIP), w.RecvPort, w.FromServices, ipstr(w.FromIP), w.FromPort, w.Nonce, w.StartHeight, w.Relay == 1))
			if d.UserAgent.String != ua {
				c.Violate("decode version", "user agent of %d bytes is decoded as one of %d", len(ua), len(d.UserAgent.String))
			}
			vint(c, "version", d.UserAgent.Length, len(ua))
			if d.HasService(protocol.SFNodeCF) != (w.Services&64 != 0) || d.HasService(protocol.SFNodeNetwork) != (w.Services&1 != 0) {
				c.Violate("decode version", "services %x", w.Services)
			}
		}
		c.Sig("version ua=%d", len(ua))
	}},
	{"empty", func(c *hx.Case) {
		net := nets[c.Rand.Intn(3)]
		m, err := protocol.NewVerackMsg(hx.Magics[net])
		encoded(c, m, err, net, "verack", []byte{})
		m, err = protocol.NewSendHeadersMessage(hx.Magics[net])
		encoded(c, m, err, net, "sendheaders", []byte{})
		c.Sig("empty %s", net)
	}},
	{"pingpong", func(c *hx.Case) {
		net := nets[c.Rand.Intn(3)]
		m, nonce, err := protocol.NewPingMsg(hx.Magics[net])
		p := encoded(c, m, err, net, "ping", hx.U64(nonce))
		n := c.Rand.Uint64() >> uint(c.Rand.Intn(64))
		m, err = protocol.NewPongMsg(hx.Magics[net], n)
		encoded(c, m, err, net, "pong", hx.U64(n))
		var d protocol.MsgPing
		if decode(c, "ping", &d, p, false) {
			eq(c, "ping", "nonce", d.Nonce, nonce)
		}
		var g protocol.MsgPong
		if decode(c, "pong", &g, hx.U64(n), false) {
			eq(c, "pong", "nonce", g.Nonce, n)
		}
		c.Sig("ping %x", n)
	}},
	{"getheaders", func(c *hx.Case) {
		r := c.Rand
		net := nets[r.Intn(3)]
		n := count(r, 500)
		g := hx.GetHeaders{Stop: hx.RandHash(r)}
		var loc blockchain.BlockLocator
		for i := 0; i < n; i++ {
			g.Locator = append(g.Locator, hx.RandHash(r))
			loc = append(loc, hx.CH(g.Locator[i]))
		}
		m, err := protocol.NewMsgGetHeaders(hx.Magics[net], g.Stop, loc)
		p := encoded(c, m, err, net, "getheaders", nil)
		if p == nil {
			return
		}
		got, err := hx.ParseGetHeaders(p)
		g.Version = got.Version
		if err != nil || !bytes.Equal(p, g.Payload()) || got.Version < 70015 {
			c.Violate("encode getheaders", "%d hashes: %v %s", n, err, diff(p, g.Payload()))
		}
		var d protocol.MsgGetHeaders
		if decode(c, "getheaders", &d, g.Payload(), false) {
			eq(c, "getheaders", "stop", d.HashStop, g.Stop[:])
			eq(c, "getheaders", "number of hashes", len(d.BlockLocatorHashes), n)
			eq(c, "getheaders", "version", d.Version, g.Version)
			for i := 0; i < n && i < len(d.BlockLocatorHashes); i++ {
				if d.BlockLocatorHashes[i] != g.Locator[i] {
					c.Violate("decode getheaders", "hash %d of %d differs", i, n)
					break
				}
			}
		}
		// too many are refused
		if n == 500 {
			if _, err := protocol.NewMsgGetHeaders(hx.Magics[net], g.Stop, append(loc, loc[0])); err == nil {
				c.Violate("encode getheaders", "501 locator hashes are accepted")
			}
		}
		c.Sig("getheaders %d", n)
	}},
	{"getcfilters", func(c *hx.Case) {
		r := c.Rand
		net := nets[r.Intn(3)]
		start := uint32(r.Intn(5000))
		dist := []int{-2, -1, 0, 1, 2, 500, 998, 999, 1000, 1001, 5000}[r.Intn(11)]
		if int(start)+dist < 0 {
			dist = 0
		}
		a, b := hx.RandHeader(r, start), hx.RandHeader(r, uint32(int(start)+dist))
		m, err := protocol.NewGetCFilters(hx.Magics[net], hdr(a), hdr(b))
		if dist < 0 || dist >= 1000 {
			if err == nil {
				c.Violate("encode getcfilters", "a range of %d more blocks is accepted", dist)
			}
		} else {
			encoded(c, m, err, net, "getcfilters", hx.GetCFilters{Start: start, Stop: b.Hash()}.Payload())
		}
		g := hx.GetCFilters{Type: byte(r.Intn(3)), Start: r.Uint32(), Stop: hx.RandHash(r)}
		m, err = protocol.NewMessage("getcfilters", hx.Magics[net], &protocol.MsgGetCFilters{FilterType: g.Type, StartHeight: g.Start, StopHash: g.Stop})
		encoded(c, m, err, net, "getcfilters", g.Payload())
		var d protocol.MsgGetCFilters
		if decode(c, "getcfilters", &d, g.Payload(), false) {
			eq(c, "getcfilters", "fields", fmt.Sprintln(d.FilterType, d.StartHeight, d.StopHash), fmt.Sprintln(g.Type, g.Start, g.Stop[:]))
		}
		c.Sig("getcfilters %d", dist)
	}},
	{"cfilter", func(c *hx.Case) {
		r := c.Rand
		net := nets[r.Intn(3)]
		n := count(r, 3000)
		if r.Intn(20) == 0 {
			n = 20000 + r.Intn(10000)
		}
		h := hx.RandHash(r)
		var el [][]byte
		for i := 0; i < n; i++ {
			el = append(el, hx.P2WPKH(r))
		}
		raw := hx.FilterOf(h, el)
		f, err := gcs.FromNBytes(builder.DefaultP, builder.DefaultM, raw)
		if err != nil {
			c.Errorf("filter: %v", err)
			return
		}
		want := hx.CFilter{Block: h, Filter: raw}.Payload()
		m, err := protocol.NewMsgCFilter(hx.Magics[net], hx.CH(h), f)
		encoded(c, m, err, net, "cfilter", want)
		var d protocol.MsgCFilter
		if decode(c, "cfilter", &d, want, false) {
			b, err := d.Filter.NBytes()
			if err != nil || !bytes.Equal(b, raw) || *d.BlockHash != chainhash.Hash(h) || d.FilterType != 0 {
				c.Violate("decode cfilter", "filter of %d bytes: %v", len(raw), err)
			}
			c.Sig("cfilter %d elements", n)
			if n > 0 {
				if ok, err := d.Filter.Match(builder.DeriveKey(hx.CH(h)), el[r.Intn(n)]); !ok || err != nil {
					c.Violate("decode cfilter", "decoded filter of %d elements misses one: %v", n, err)
				}
			}
		}
	}},
	{"inv", func(c *hx.Case) {
		r := c.Rand
		net := nets[r.Intn(3)]
		n := count(r, 3000)
		if r.Intn(40) == 0 {
			n = 65535 + r.Intn(3)
		}
		var l []hx.Inv
		for i := 0; i < n; i++ {
			l = append(l, hx.Inv{Type: []uint32{0, 1, 2, 3, 4, 1<<30 | 1, r.Uint32()}[r.Intn(7)], Hash: hx.RandHash(r)})
		}
		want := hx.InvPayload(l)
		var d protocol.MsgInv
		if !decode(c, "inv", &d, want, false) {
			return
		}
		vint(c, "inv", d.Count, n)
		eq(c, "inv", "number", len(d.Inventory), n)
		for i := range d.Inventory {
			if i < n && (d.Inventory[i].Type != l[i].Type || d.Inventory[i].Hash != l[i].Hash) {
				c.Violate("decode inv", "vector %d of %d differs", i, n)
				break
			}
		}
		m, err := protocol.NewMessage("getdata", hx.Magics[net], protocol.MsgGetData{Count: d.Count, Inventory: d.Inventory})
		encoded(c, m, err, net, "getdata", want)
		c.Sig("inv %d", n)
	}},
	{"headers", func(c *hx.Case) {
		r := c.Rand
		n := count(r, 700)
		if r.Intn(40) == 0 {
			n = 2000
		}
		var hs []*hx.Header
		for i := 0; i < n; i++ {
			hs = append(hs, hx.RandHeader(r, r.Uint32()))
		}
		var d protocol.MsgHeaders
		if !decode(c, "headers", &d, hx.HeadersPayload(hs), true) {
			return
		}
		eq(c, "headers", "number", len(d.Headers), n)
		for i := range d.Headers {
			if i >= n {
				break
			}
			g, w := d.Headers[i], hs[i]
			hash, err := g.Hash()
			b, err2 := g.Serialize()
			if err != nil || err2 != nil || hash != chainhash.Hash(w.Hash()) || !bytes.Equal(b, w.Bytes()) || g.Height != w.Height || !bytes.Equal(g.PrevBlockHash, w.Prev[:]) {
				c.Violate("decode headers", "header %d of %d differs (%v %v)", i, n, err, err2)
				break
			}
		}
		c.Sig("headers %d", n)
	}},
	{"tx", func(c *hx.Case) {
		r := c.Rand
		net := nets[r.Intn(3)]
		var sc [][]byte
		for n := count(r, 600); n >= 0; n-- {
			sc = append(sc, hx.RandBytes(r, []int{0, 1, 22, 34, 252, 253, 300}[r.Intn(7)]))
		}
		t := hx.RandTx(r, sc, true)
		raw := t.Bytes()
		var d protocol.MsgTx
		if decode(c, "tx", &d, raw, true) {
			if d.HashStr() != t.ID().String() {
				c.Violate("decode tx", "id %s instead of %s", d.HashStr(), t.ID())
			}
			if id, err := d.Hash(); err != nil || hex.EncodeToString(id) != t.ID().String() {
				c.Violate("decode tx", "id %x (%v) instead of %s", id, err, t.ID())
			}
			m, err := protocol.NewMessage("tx", hx.Magics[net], &d)
			encoded(c, m, err, net, "tx", raw)
		}
		h, err := protocol.NewMsgTxFromHex(hex.EncodeToString(raw))
		if err != nil {
			c.Violate("encode tx", "hex of a valid tx is refused: %v", err)
			return
		}
		m, err := protocol.NewMessage("tx", hx.Magics[net], &h)
		encoded(c, m, err, net, "tx", raw)
		c.Sig("tx %d outputs witness=%v len=%d", len(sc), t.Witness, len(raw))
	}},
	{"block", func(c *hx.Case) {
		r := c.Rand
		ch := hx.NewChain(r, nets[r.Intn(3)], 0)
		var txs []*hx.Tx
		for n := count(r, 300); n > 0; n-- {
			txs = append(txs, hx.RandTx(r, [][]byte{hx.P2WPKH(r), hx.P2WPKH(r)}, true))
		}
		b := ch.Add(txs)
		var d protocol.MsgBlock
		if !decode(c, "block", &d, b.Raw(), true) {
			return
		}
		hash, err := d.Header.Hash()
		if err != nil || hash != chainhash.Hash(b.Hash) {
			c.Violate("decode block", "hash %v instead of %v", hash, b.Hash)
		}
		eq(c, "block", "number of transactions", len(d.TransactionsData.Transactions), len(b.Txs))
		for i, t := range d.TransactionsData.Transactions {
			if i < len(b.Txs) && t.TxHash() != chainhash.Hash(b.IDs[i]) {
				c.Violate("decode block", "transaction %d differs", i)
			}
		}
		c.Sig("block %d txs", len(b.Txs))
	}},
	{"sendcmpct", func(c *hx.Case) {
		net := nets[c.Rand.Intn(3)]
		on, v := c.Rand.Intn(2) == 1, c.Rand.Uint64()
		p := hx.Cat([]byte{0}, hx.U64(v))
		if on {
			p[0] = 1
		}
		m, err := protocol.NewMessage("sendcmpct", hx.Magics[net], protocol.MsgSendCmpct{LowBandwitdhType: on, Version: v})
		encoded(c, m, err, net, "sendcmpct", p)
		var d protocol.MsgSendCmpct
		if decode(c, "sendcmpct", &d, p, false) {
			eq(c, "sendcmpct", "fields", fmt.Sprintln(d.LowBandwitdhType, d.Version), fmt.Sprintln(on, v))
		}
		c.Sig("sendcmpct %v", on)
	}},
	{"header", func(c *hx.Case) {
		r := c.Rand
		net := nets[r.Intn(3)]
		cmd := []string{"version", "verack", "ping", "pong", "inv", "tx", "block", "headers", "getheaders", "cfilter", "getcfilters", "sendcmpct", "addr", "feefilter", "sendheaders", "wtxidrelay", "sendaddrv2", "filterclear", "merkleblock", "notfound"}[r.Intn(20)]
		pl := hx.RandBytes(r, r.Intn(100))
		raw := hx.Frame(hx.Magics[net], cmd, pl)
		length := r.Uint32() >> uint(r.Intn(32))
		copy(raw[16:], hx.U32(length))
		var h protocol.MessageHeader
		if decode(c, "message header", &h, raw[:24], false) {
			if h.Magic != hx.Magics[net] || h.CommandString() != cmd || h.Length != length || h.Checksum != hx.Checksum(pl) {
				c.Violate("decode message header", "%x is decoded as %+v", raw[:24], h)
			}
			if err := h.Validate(); err != nil {
				c.Violate("decode message header", "%s of %s is invalid: %v", cmd, net, err)
			}
		}
		// a network that does not exist
		raw[r.Intn(4)] ^= byte(1 + r.Intn(255))
		h = protocol.MessageHeader{}
		if err := binary.NewDecoder(bytes.NewReader(raw[:24])).Decode(&h); err != nil || h.HasValidMagic() {
			c.Violate("decode message header", "magic %x is valid: %v", raw[:4], err)
		}
		c.Sig("header %s %s", net, cmd)
	}},
	{"varint", func(c *hx.Case) {
		r := c.Rand
		edges := []uint64{0, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 1<<62 + 5, 1<<63 - 1}
		n := edges[r.Intn(len(edges))]
		if r.Intn(2) == 0 {
			n = r.Uint64() >> uint(1+r.Intn(62))
		}
		want := hx.VarInt(n)
		v, err := protocol.NewVarint(int(n))
		if err == nil {
			var b []byte
			b, err = binary.Marshal(v)
			if err == nil && !bytes.Equal(b, want) {
				c.Violate("encode varint", "%d is encoded as %x instead of %x", n, b, want)
			}
		}
		if err != nil {
			c.Violate("encode varint", "%d: %v", n, err)
		}
		if n <= 0xff {
			v, err := protocol.NewVarint(uint8(n))
			b, err2 := binary.Marshal(v)
			if err != nil || err2 != nil || !bytes.Equal(b, want) {
				c.Violate("encode varint", "uint8 %d is encoded as %x instead of %x", n, b, want)
			}
		}
		var d protocol.VarInt
		if decode(c, "varint", &d, want, false) {
			vint(c, "varint", d, int(n))
		}
		// all of its encodings that are longer
		for k := len(want); k <= 9; k++ {
			var b []byte
			switch k {
			case 3:
				b = append([]byte{0xfd}, hx.U16(uint16(n))...)
			case 5:
				b = append([]byte{0xfe}, hx.U32(uint32(n))...)
			case 9:
				b = append([]byte{0xff}, hx.U64(n)...)
			default:
				continue
			}
			d = protocol.VarInt{}
			rd := newReader(c, b)
			if err := binary.NewDecoder(rd).Decode(&d); err == nil {
				vint(c, "varint", d, int(n))
			}
		}
		c.Sig("varint %d", n)
	}},
}

func hdr(h *hx.Header) *block.Header {
	b, err := block.DeserializeHeader(bytes.NewBuffer(h.Bytes()))
	if err != nil {
		panic(err)
	}
	return b
}

func ipstr(ip [16]byte) string {
	return fmt.Sprintf("%d.%d.%d.%d", ip[12], ip[13], ip[14], ip[15])
}

func TestC01(t *testing.T) {
	hx.Main(t, "C01", "a case builds or decodes messages of one kind with random fields and counts on both sides of the varint boundaries, read in one piece, byte by byte, in random segments or with EOF at the last byte; distinct by kind and size", func(r *hx.Run) {
		r.Require("messages encoded", "messages decoded")
		for _, k := range kinds {
			n := r.N(400, 6000)
			if k.name == "varint" || k.name == "header" || k.name == "pingpong" {
				n *= 5
			}
			r.Cases(k.name, n, k.f)
		}
	})
}
