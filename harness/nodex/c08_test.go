package nodex

import (
	"bytes"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC08(t *testing.T) {
	hx.Main(t, "C08", "Each case is a node with one to five peers over a generated chain; headers come by sync, headers messages and blocks, some peers' connections refuse what the node writes (all of it from some moment on, or now and then), filters come late, shuffled, repeated, unasked and in large sizes. What was written to which peer is matched with the headers stored, what was stored with what was sent. Distinct by chain, peers, failures and what was stored.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("headers stored", "filters received", "requests whose write failed", "filters stored", "filters nobody asked for", "filters sent twice", "cases with failing peers", "headers of a fork stored", "peers that do not read")
		r.Cases("requests", r.N(1800, 30000), caseRequests)
		r.Cases("filters", r.N(1200, 20000), caseFilters)
	})
}

// caseRequests: every header that is stored has to be asked for at a peer that
// can be written to.
func caseRequests(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		n := pick(r, 1, 2, 5, 12, 40, 120)
		if c.Idx%60 == 11 {
			n = pick(r, 999, 1000, 1001, 2001, 2500)
		}
		w := &World{Ch: hx.NewChain(r, net, n)}
		pre := pick(r, 0, 0, 0, 1, n/2)
		f.H.Put(w.Ch.Blks[1 : pre+1]...)
		lr := newLocked(r)
		if n < 500 {
			f.H.Wait = lr.ms(pick(r, 0, 0, 2))
		}
		if r.Intn(4) == 0 && n < 200 {
			pc := pick(r, 2, 10)
			f.H.Fail = func(op string, _ int) error {
				if op == "write" && lr.Intn(100) < pc {
					return errStore
				}
				return nil
			}
		}
		np := 1 + r.Intn(5)
		good := r.Intn(np) // at least this one can always be written to
		var ps []*hx.Peer
		failing, hangs := 0, 0
		var mu sync.Mutex
		failed := 0
		for i := 0; i < np; i++ {
			i := i
			h := f.Honest(w)
			h.Batch = pick(r, 1, 3, 10, 2000)
			if n > 200 {
				h.Batch = 2000
			}
			h.Delay = lr.ms(pick(r, 0, 2, 20))
			h.NoCF = r.Intn(3) == 0
			h.VerFirst = r.Intn(4) == 0
			p := h.Peer(string(rune('A' + i)))
			if i != good && r.Intn(3) > 0 {
				failing++
				how := r.Intn(4)
				if hangs < 2 && r.Intn(4) == 0 {
					// it reads nothing from here on
					hangs++
					d := time.Duration(r.Intn(3000)) * time.Millisecond
					ps = append(ps, p)
					c.Go(func() {
						time.Sleep(d)
						if len(p.Sent("sendheaders")) > 0 {
							c.Count("peers that do not read", 1)
						}
						p.C.Stall()
					})
					continue
				}
				after := 3 + r.Intn(12)
				p.C.FailWrites(func(k int, b []byte) error {
					m, _, ok := hx.Take(b)
					if !ok || m.Cmd == "version" || m.Cmd == "verack" || m.Cmd == "sendheaders" {
						return nil // it connects
					}
					bad := false
					switch how {
					case 0:
						bad = true
					case 1:
						bad = k > after
					case 2:
						bad = lr.Intn(2) == 0
					default:
						bad = m.Cmd == "getcfilters" && lr.Intn(4) > 0
					}
					if !bad {
						return nil
					}
					if m.Cmd == "getcfilters" {
						mu.Lock()
						failed++
						mu.Unlock()
					}
					return errors.New("broken pipe")
				})
			}
			ps = append(ps, p)
		}
		// the good one is there first
		order := append([]*hx.Peer{ps[good]}, append(append([]*hx.Peer(nil), ps[:good]...), ps[good+1:]...)...)
		hold := f.hold(order[0])
		f.Start(order[0])
		if !wait(20*time.Second, func() bool { return len(order[0].Sent("sendheaders")) > 0 }) {
			c.Violate("no handshake", "the handshake with the first peer is not completed")
			return
		}
		for _, p := range order[1:] {
			if err := f.Connect(p); err != nil && hangs == 0 {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				return
			}
		}
		wait(5*time.Second, func() bool {
			for _, p := range order {
				if len(p.Sent("sendheaders")) == 0 {
					return false
				}
			}
			return true
		})
		hold()
		wait(time.Minute, func() bool { return allStored(f, w.Ch, n) == 0 })
		for i := r.Intn(6); i > 0; i-- {
			time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
			announce(c, f, w, order)
		}
		// headers of a fork, also at a height that is stored already
		var forked []*hx.Blk
		if tip := int(f.H.Tip()); n > 2 && n < 200 && tip == len(w.Ch.Blks)-1 && r.Intn(2) == 0 {
			var ch *hx.Chain
			w.Do(func(main *hx.Chain) { ch = fork(main, tip-1, 2+r.Intn(3)) })
			forked = ch.Blks[tip:]
			var hs []*hx.Header
			for _, b := range forked {
				hs = append(hs, b.H)
			}
			if p := order[r.Intn(len(order))]; !p.C.IsClosed() && len(p.Sent("sendheaders")) > 0 {
				p.Msg(f.M, "headers", hx.HeadersPayload(hs))
				time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			}
		}
		if hangs > 0 {
			time.Sleep(time.Duration(1+hangs) * time.Minute)
		}
		c.Settle(20 * time.Second)
		f.H.mu.Lock()
		f.H.Fail = nil
		f.H.mu.Unlock()
		asked := map[string]int{}
		reqs := 0
		for _, p := range ps {
			for _, m := range p.Sent("getcfilters") {
				g, err := hx.ParseGetCFilters(m.Payload)
				if err != nil || m.Check(f.M) != nil {
					c.Violate("malformed getcfilters", "%v %v: %x", err, m.Check(f.M), m.Payload)
					return
				}
				if g.Type != 0 {
					c.Violate("wrong filter type requested", "filter type %d", g.Type)
				}
				asked[fmt.Sprintf("%d %s", g.Start, g.Stop)]++
				reqs++
			}
		}
		stored := 0
		for i, x := range f.H.List() {
			if i < pre {
				continue
			}
			stored++
			k := fmt.Sprintf("%d %s", f.H.Heights[x], x)
			if asked[k] == 0 {
				c.Violate("filter not requested", "header %s was stored, its filter was never requested though %s (%d peers, %d of them failing) can be written to", k, order[0].Name, np, failing)
				return
			}
		}
		for _, b := range append(append([]*hx.Blk(nil), w.Ch.Blks[1:]...), forked...) {
			delete(asked, fmt.Sprintf("%d %s", b.H.Height, b.Hash))
		}
		for k := range asked {
			c.Violate("filter of no block requested", "%s is requested", k)
			return
		}
		for _, b := range forked {
			if _, ok := f.H.Heights[b.Hash]; ok {
				c.Count("headers of a fork stored", 1)
			}
		}
		c.Count("headers stored", stored)
		c.Count("filter requests", reqs)
		c.Count("requests whose write failed", failed)
		if failing > 0 {
			c.Count("cases with failing peers", 1)
		}
		c.Sig("n=%d pre=%d peers=%d failing=%d stored=%d reqs=%d failed=%d", n, pre, np, failing, stored, reqs, failed)
		c.Sample(map[string]int{"headers stored": stored, "requests": reqs, "failed writes of requests": failed, "peers": np, "failing": failing})
	})
}

// hold keeps the answers of a peer to getheaders back until it is released.
func (f *Fix) hold(p *hx.Peer) (release func()) {
	on := p.On
	gate := make(chan struct{})
	var q []hx.Sent
	var mu sync.Mutex
	open := false
	p.On = func(p *hx.Peer, m hx.Sent) {
		mu.Lock()
		if m.Cmd == "getheaders" && !open {
			q = append(q, m)
			mu.Unlock()
			return
		}
		mu.Unlock()
		on(p, m)
	}
	f.C.Go(func() {
		<-gate
		mu.Lock()
		open = true
		l := q
		mu.Unlock()
		for _, m := range l {
			on(p, m)
		}
	})
	var once sync.Once
	rel := func() { once.Do(func() { close(gate) }) }
	f.C.Cleanup(rel)
	return rel
}

// caseFilters: what peers send as filters is what is stored.
func caseFilters(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		n := pick(r, 1, 3, 10, 40)
		ch := hx.NewChain(r, net, n)
		w := &World{Ch: ch}
		for _, b := range ch.Blks[1:] {
			var el [][]byte
			k := pick(r, 0, 1, 2, 20, 252, 253, 300)
			if r.Intn(20) == 0 {
				k = pick(r, 3000, 30000)
			}
			for ; k > 0; k-- {
				el = append(el, hx.RandBytes(r, 1+r.Intn(30)))
			}
			b.Filter = hx.FilterOf(b.Hash, el)
		}
		lr := newLocked(r)
		f.F.Wait = lr.ms(pick(r, 0, 0, 3, 40))
		if r.Intn(3) == 0 {
			pc := pick(r, 5, 40)
			f.F.Fail = func(op string, _ int) error {
				if op == "put" && lr.Intn(100) < pc {
					return errStore
				}
				return nil
			}
		}
		np := 1 + r.Intn(4)
		var mu sync.Mutex
		sent := map[hx.Hash][][]byte{}
		dup, odd := 0, 0
		send := func(p *hx.Peer, h hx.Hash, flt []byte) {
			mu.Lock()
			known := false
			for _, x := range sent[h] {
				known = known || bytes.Equal(x, flt)
			}
			if !known {
				sent[h] = append(sent[h], flt)
			} else {
				dup++
			}
			mu.Unlock()
			p.Msg(f.M, "cfilter", hx.CFilter{Block: h, Filter: flt}.Payload())
		}
		var ps []*hx.Peer
		for i := 0; i < np; i++ {
			h := f.Honest(w)
			h.Batch = pick(r, 1, 5, 2000)
			late := pick(r, 0, 5, 300, 3000)
			twice, mute := r.Intn(3) == 0, r.Intn(6) == 0
			h.Gate = func(p *hx.Peer, m hx.Sent) bool {
				if m.Cmd != "getcfilters" {
					return false
				}
				g, err := hx.ParseGetCFilters(m.Payload)
				b := ch.ByHash(g.Stop)
				if err != nil || b == nil || mute {
					return true
				}
				d := time.Duration(lr.Intn(late*1000+1)) * time.Microsecond
				c.Go(func() {
					time.Sleep(d)
					send(p, b.Hash, b.Filter)
					if twice && lr.Intn(2) == 0 {
						time.Sleep(time.Duration(lr.Intn(3000)) * time.Millisecond)
						send(p, b.Hash, b.Filter)
					}
				})
				return true
			}
			p := h.Peer(string(rune('A' + i)))
			if r.Intn(3) == 0 {
				p.Split = c.CutAt(pick(r, 40, 300))
				if r.Intn(2) == 0 {
					p.Split = nil
				}
			}
			ps = append(ps, p)
		}
		f.Start(ps[0])
		for _, p := range ps[1:] {
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				return
			}
		}
		// filters nobody asked for, of blocks of this and of no chain, also with
		// the hash of one block and its neighbour's content
		for i := r.Intn(12); i > 0; i-- {
			time.Sleep(time.Duration(r.Intn(400)) * time.Millisecond)
			p := ps[r.Intn(np)]
			h := hx.RandHash(r)
			flt := hx.FilterOf(h, [][]byte{hx.RandBytes(r, 5), h[:]})
			switch r.Intn(4) {
			case 0:
				h = ch.Blks[1+r.Intn(n)].Hash
			case 1:
				flt = ch.Blks[1+r.Intn(n)].Filter
			}
			odd++
			send(p, h, flt)
		}
		c.Settle(15 * time.Second)
		nsent := 0
		for h, l := range sent {
			nsent += len(l)
			got := f.F.Of(h)
			for _, flt := range l {
				ok := false
				for _, p := range append(f.F.All(), f.F.Lost...) {
					ok = ok || p.Block == h && bytes.Equal(p.Filter, flt) && p.Type == 0
				}
				if !ok {
					c.Violate("filter not stored", "the filter of %d bytes received for %s was not stored (stored for it: %d bytes)", len(flt), h, len(got))
					return
				}
			}
			if got != nil {
				ok := false
				for _, flt := range l {
					ok = ok || bytes.Equal(flt, got)
				}
				if !ok {
					c.Violate("wrong filter stored", "the filter stored for %s is %.80x, received was %.80x", h, got, l[0])
					return
				}
			} else if len(f.F.Lost) == 0 {
				c.Violate("filter not stored", "nothing is stored for %s", h)
				return
			}
		}
		for _, p := range append(f.F.All(), f.F.Lost...) {
			ok := false
			for _, flt := range sent[p.Block] {
				ok = ok || bytes.Equal(flt, p.Filter)
			}
			if !ok || p.Type != 0 {
				c.Violate("wrong filter stored", "a filter (type %d) of %d bytes is stored for %s, it was never sent for it: %.80x", p.Type, len(p.Filter), p.Block, p.Filter)
				return
			}
		}
		c.Count("filters received", nsent)
		c.Count("filters stored", len(f.F.All()))
		c.Count("filters sent twice", dup)
		c.Count("filters nobody asked for", odd)
		c.Sig("n=%d peers=%d sent=%d dup=%d odd=%d puts=%d lost=%d", n, np, nsent, dup, odd, len(f.F.All()), len(f.F.Lost))
		c.Sample(map[string]int{"filters sent": nsent, "stored": len(f.F.All()), "store failures": len(f.F.Lost), "repeated": dup, "unasked": odd})
	})
}
