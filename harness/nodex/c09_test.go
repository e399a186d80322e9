package nodex

import (
	"encoding/hex"
	"fmt"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC09(t *testing.T) {
	hx.Main(t, "C09", "Each case is a node whose stores hold up to about 1100 headers and a random part of their filters (sizes 0 to some hundred elements); one to three peers ask for ranges of every kind, also such that must be refused, one after the other or at once, some while the node goes on syncing. The answers are compared byte for byte with the stored range. Distinct by the ranges asked for and the answers.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("requests", "requests refused", "filters answered", "ranges with filters missing", "ranges of 1000 heights", "requests of several peers at once", "ranges from height 0")
		r.Cases("small", r.N(4000, 60000), func(c *hx.Case) { caseRanges(c, pick(c.Rand, 1, 2, 5, 12, 40)) })
		r.Cases("large", r.N(120, 1500), func(c *hx.Case) { caseRanges(c, pick(c.Rand, 999, 1000, 1001, 1003, 1100)) })
	})
}

func caseRanges(c *hx.Case, n int) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		ch := hx.NewChain(r, net, n)
		full := r.Intn(3) == 0
		genesis := r.Intn(3) == 0
		if genesis {
			f.H.Put(ch.Blks[0])
		}
		f.H.Put(ch.Blks[1:]...)
		have := map[uint32][]byte{}
		empty := r.Intn(8) == 0
		for i, b := range ch.Blks {
			if i == 0 && !genesis || empty || !full && r.Intn(4) == 0 {
				continue
			}
			var el [][]byte
			k := pick(r, 0, 1, 1, 2, 5)
			if r.Intn(40) == 0 {
				k = pick(r, 252, 253, 300)
			}
			for ; k > 0; k-- {
				el = append(el, hx.RandBytes(r, 1+r.Intn(40)))
			}
			have[uint32(i)] = hx.FilterOf(b.Hash, el)
			f.F.Store(b.Hash, have[uint32(i)])
		}
		// filters of blocks nobody knows
		for i := r.Intn(3); i > 0; i-- {
			h := hx.RandHash(r)
			f.F.Store(h, hx.FilterOf(h, [][]byte{h[:]}))
		}
		lr := newLocked(r)
		if n < 100 {
			f.H.Wait, f.F.Wait = lr.ms(pick(r, 0, 0, 3)), lr.ms(pick(r, 0, 0, 3))
		}
		// the first peer has more for the node in some cases
		more := 0
		long := fork(ch, n, 0)
		if n < 100 && r.Intn(3) == 0 {
			more = 1 + r.Intn(20)
			long = fork(ch, n, more)
		}
		h := f.Honest(&World{Ch: long})
		h.Batch = pick(r, 1, 3, 2000)
		h.Delay = lr.ms(pick(r, 0, 2, 50))
		h.NoCF = true // what was not stored at first stays so
		np := 1 + r.Intn(3)
		var ps []*hx.Peer
		for i := 0; i < np; i++ {
			ps = append(ps, h.Peer(string(rune('A'+i))))
		}
		f.Start(ps[0])
		for _, p := range ps[1:] {
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				return
			}
		}
		if !wait(20*time.Second, func() bool {
			for _, p := range ps {
				if len(p.Sent("sendheaders")) == 0 {
					return false
				}
			}
			return true
		}) {
			c.Violate("no handshake", "the handshake with %d peers is not completed", np)
			return
		}
		atOnce := r.Intn(2) == 0 // all requests are sent before the answers are there
		if atOnce && np > 1 {
			c.Count("requests of several peers at once", 1)
		}
		want := make([][]string, np)
		rounds := pick(r, 1, 2, 4, 10)
		if n > 100 {
			rounds = 4
		}
		sig := ""
		check := func(when string) bool {
			c.Settle(10 * time.Second)
			for i, p := range ps {
				var got []string
				for _, m := range p.Sent("cfilter", "pong") {
					if err := m.Check(f.M); err != nil {
						c.Violate("malformed message", "%v", err)
						return false
					}
					got = append(got, m.Cmd+" "+hex.EncodeToString(m.Payload))
				}
				if d := diff(want[i], got); d != "" {
					c.Violate("wrong answer", "%s, peer %s: %s", when, p.Name, d)
					return false
				}
				if p.C.IsClosed() {
					c.Violate("connection closed", "%s: the node has closed the connection to %s", when, p.Name)
					return false
				}
			}
			return true
		}
		for k := 0; k < rounds; k++ {
			i := r.Intn(np)
			g, ok, kind := genRange(c, ch, n)
			sig += kind + ","
			c.Count("requests", 1)
			name := fmt.Sprintf("request %d (%s, %d..%s of %d)", k, kind, g.Start, g.Stop, n)
			if !ok {
				c.Count("requests refused", 1)
			} else {
				stop := ch.ByHash(g.Stop).H.Height
				if stop-g.Start == 999 {
					c.Count("ranges of 1000 heights", 1)
				}
				if g.Start == 0 {
					c.Count("ranges from height 0", 1)
				}
				miss := false
				for x := g.Start; x <= stop; x++ {
					if flt := have[x]; flt != nil {
						want[i] = append(want[i], "cfilter "+hex.EncodeToString(hx.CFilter{Block: ch.Blks[x].Hash, Filter: flt}.Payload()))
						c.Count("filters answered", 1)
					} else {
						miss = true
					}
				}
				if miss {
					c.Count("ranges with filters missing", 1)
				}
			}
			ps[i].Msg(f.M, "getcfilters", g.Payload())
			if r.Intn(2) == 0 {
				x := hx.U64(r.Uint64())
				ps[i].Msg(f.M, "ping", x)
				want[i] = append(want[i], "pong "+hex.EncodeToString(x))
			}
			if !atOnce && !check(name) {
				return
			}
		}
		// all of them are still usable
		for i, p := range ps {
			x := hx.U64(r.Uint64())
			p.Msg(f.M, "ping", x)
			want[i] = append(want[i], "pong "+hex.EncodeToString(x))
		}
		if !check("at the end") {
			return
		}
		tot := 0
		for _, l := range want {
			tot += len(l)
		}
		c.Sig("n=%d peers=%d filters=%d more=%d once=%v %s %d", n, np, len(have), more, atOnce, sig, tot)
		c.Sample(map[string]interface{}{"headers": n, "filters": len(have), "peers": np, "requests": sig, "messages compared": tot})
	})
}

// genRange makes a request and says whether it has to be answered. The genesis
// block is never the stop block: whether it is known depends on the store.
func genRange(c *hx.Case, ch *hx.Chain, n int) (g hx.GetCFilters, ok bool, kind string) {
	r := c.Rand
	stop := 1 + r.Intn(n)
	start := 0
	switch k := r.Intn(14); {
	case k < 3:
		start, kind = r.Intn(stop+1), "any"
	case k == 3:
		start, kind = stop, "one"
	case k == 4:
		start, stop, kind = 0, n, "all"
	case k == 5:
		start, kind = 0, "from 0"
	case k == 6:
		stop = n
		start, kind = max(0, n-999), "999 apart"
	case k == 7:
		stop = n
		start, kind = max(0, n-998), "998 apart"
	case k == 8:
		stop = n
		start, kind = max(0, n-1000), "1000 apart"
	case k == 9:
		return hx.GetCFilters{Start: uint32(r.Intn(n + 2)), Stop: hx.RandHash(r)}, false, "unknown stop"
	case k == 10:
		return hx.GetCFilters{Start: uint32(stop + 1), Stop: ch.Blks[stop].Hash}, false, "stop below start"
	case k == 11:
		return hx.GetCFilters{Start: []uint32{0xffffffff, 0x80000000, uint32(stop) + 1000, uint32(stop) + 2}[r.Intn(4)], Stop: ch.Blks[stop].Hash}, false, "start far above"
	case k == 12:
		return hx.GetCFilters{Type: byte(1 + r.Intn(255)), Start: uint32(r.Intn(stop + 1)), Stop: ch.Blks[stop].Hash}, false, "unknown type"
	default:
		var z hx.Hash
		return hx.GetCFilters{Start: 0, Stop: z}, false, "zero stop"
	}
	return hx.GetCFilters{Start: uint32(start), Stop: ch.Blks[stop].Hash}, stop-start < 1000, kind
}
