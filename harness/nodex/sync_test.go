package nodex

import (
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC06(t *testing.T) {
	hx.Main(t, "C06", "Each case is a node with in-memory connections to one to three honest peers in virtual time; chain length, batch size, delays, segmentation, blocks announced during the sync and the moment a peer is lost are drawn at random. Distinct by those choices and the messages exchanged.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("headers stored", "starts that succeeded", "peers lost while syncing", "blocks announced while syncing", "syncs over several batches", "stores with holes", "peers that fall silent", "peers that do not read")
		r.Cases("sync", r.N(700, 20000), caseSync)
		r.Cases("lost", r.N(600, 20000), caseLost)
		r.Cases("hole", r.N(60, 2000), caseHole)
	})
}

func genLen(c *hx.Case) int {
	n := pick(c.Rand, 1, 2, 3, 9, 10, 11, 12, 25, 60, 150, 400)
	if c.Idx%40 == 7 {
		n = pick(c.Rand, 1999, 2000, 2001, 4001)
	}
	return n
}

func genBatch(c *hx.Case, n int) int {
	switch {
	case n > 1000:
		return 2000
	case c.Rand.Intn(4) == 0:
		return 2000
	}
	return pick(c.Rand, 1, 2, 3, 7, 10, 50, n)
}

// allStored checks the whole chain against the store.
func allStored(f *Fix, ch *hx.Chain, upTo int) (missing int) {
	for _, b := range ch.Blks[1 : upTo+1] {
		if !f.H.Has(b.Hash) {
			missing++
		}
	}
	return
}

func caseSync(c *hx.Case) {
	c.Bubble(func() {
		n := genLen(c)
		net := nets[c.Rand.Intn(3)]
		f := NewFix(c, net)
		w := &World{Ch: hx.NewChain(c.Rand, net, n)}
		lr := newLocked(c.Rand)
		pre := 0
		if c.Rand.Intn(3) == 0 {
			pre = c.Rand.Intn(n + 1)
			f.H.Put(w.Ch.Blks[1 : pre+1]...)
		}
		if n <= 1000 {
			f.H.Wait = lr.ms(pick(c.Rand, 0, 0, 1, 5))
		}
		np := 1 + c.Rand.Intn(3)
		batch := genBatch(c, n)
		var ps []*hx.Peer
		var hs []*Honest
		for i := 0; i < np; i++ {
			h := f.Honest(w)
			h.Batch = batch
			h.Delay = lr.ms(pick(c.Rand, 0, 0, 3, 40, 900))
			if n > 100 { // it has to answer pings in time as well
				h.Delay = lr.ms(pick(c.Rand, 0, 3, 20))
			}
			h.VerFirst = c.Rand.Intn(4) == 0
			p := h.Peer(string(rune('A' + i)))
			if n <= 400 && c.Rand.Intn(3) == 0 {
				p.Split = c.CutAt(pick(c.Rand, 5, 30, 500))
			}
			ps = append(ps, p)
			hs = append(hs, h)
		}
		f.Start(ps[0])
		for _, p := range ps[1:] {
			time.Sleep(time.Duration(c.Rand.Intn(300)) * time.Millisecond)
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
			}
		}
		_ = hs
		// blocks that come while it syncs
		grow := pick(c.Rand, 0, 0, 1, 2, 5, 12)
		during := 0
		for i := 0; i < grow; i++ {
			time.Sleep(time.Duration(c.Rand.Intn(pick(c.Rand, 2, 100, 3000))) * time.Millisecond)
			if f.H.Count() < n {
				during++
			}
			announce(c, f, w, ps)
		}
		if during > 0 {
			c.Count("blocks announced while syncing", during)
		}
		announced := n
		returned := wait(20*time.Minute, func() bool { ok, _ := f.Started(); return ok })
		if !returned {
			c.Violate("start does not return", "the chain of %d headers is served in batches of %d, %d are stored, Start has not returned after 20 minutes", w.Ch.Height(), batch, f.H.Count())
			return
		}
		_, err := f.Started()
		if err != nil {
			c.Violate("start fails", "Start: %v", err)
			return
		}
		c.Count("starts that succeeded", 1)
		if m := allStored(f, w.Ch, announced); m > 0 {
			c.Violate("start succeeds too early", "Start reported success while %d of the %d headers announced are not stored", m, announced)
			return
		}
		end := int(w.Ch.Height())
		if !wait(10*time.Minute, func() bool { return allStored(f, w.Ch, end) == 0 }) {
			c.Violate("headers are missing", "%d of %d headers are not stored (tip %d, batch %d, announced %d blocks meanwhile)", allStored(f, w.Ch, end), end, f.H.Tip(), batch, grow)
			return
		}
		tip, err := f.N.GetChainTip()
		if err != nil || tip.Height != uint32(end) {
			c.Violate("wrong chain tip", "GetChainTip: %v %v instead of %d", tip, err, end)
		}
		if x := f.H.Count(); x != end {
			c.Violate("headers of no chain", "%d headers are stored, the chain has %d", x, end)
		}
		c.Count("headers stored", end-pre)
		if (n-pre)/batch > 1 {
			c.Count("syncs over several batches", 1)
		}
		c.Sig("n=%d batch=%d pre=%d peers=%d grow=%d during=%d gh=%d", n, batch, pre, np, grow, during, len(ps[0].Sent("getheaders")))
		c.Sample(map[string]int{"chain": end, "batch": batch, "stored before": pre, "peers": np, "announced blocks": grow})
	})
}

// caseHole starts a node on a store that lacks headers before its tip: as long
// as it does, the start has not succeeded.
func caseHole(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		n := pick(r, 3, 4, 12, 40, 150)
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		w := &World{Ch: hx.NewChain(r, net, n)}
		from := 1 + r.Intn(n-2) // the first one that is missing
		to := from + r.Intn(n-1-from)
		f.H.Put(w.Ch.Blks[1:from]...)
		if r.Intn(2) == 0 {
			f.H.Put(w.Ch.Blks[to+1:]...)
		} else {
			f.H.Put(w.Ch.Blks[to+1 : to+2]...)
		}
		h := f.Honest(w)
		h.Batch = pick(r, 1, 10, 2000)
		h.Delay = newLocked(r).ms(pick(r, 0, 3, 900))
		f.Start(h.Peer("A"))
		for k := 0; k < 300; k++ {
			time.Sleep(time.Duration(1+r.Intn(2000)) * time.Millisecond)
			ok, err := f.Started()
			if !ok {
				continue
			}
			if m := allStored(f, w.Ch, n); m > 0 && err == nil {
				c.Violate("start succeeds too early", "Start reported success while %d of the %d headers announced are not stored (%d to %d missing at first)", m, n, from, to)
				return
			}
			break
		}
		c.Count("stores with holes", 1)
		c.Sig("hole %d-%d of %d batch %d", from, to, n, h.Batch)
	})
}

// announce adds a block and has the peers tell the node in one of the ways they do.
func announce(c *hx.Case, f *Fix, w *World, ps []*hx.Peer) {
	var b *hx.Blk
	w.Do(func(ch *hx.Chain) { b = ch.Add(nil) })
	way := c.Rand.Intn(3)
	// a peer announces nothing before the handshake is over
	var ready []*hx.Peer
	for _, p := range ps {
		if !p.C.IsClosed() && len(p.Sent("sendheaders")) > 0 {
			ready = append(ready, p)
		}
	}
	if len(ready) == 0 {
		return
	}
	some := c.Rand.Intn(len(ready))
	for i, p := range ready {
		if i != some && c.Rand.Intn(3) == 0 {
			continue
		}
		switch way {
		case 0:
			p.Msg(f.M, "inv", hx.InvPayload([]hx.Inv{{Type: 2, Hash: b.Hash}}))
		case 1:
			p.Msg(f.M, "headers", hx.HeadersPayload([]*hx.Header{b.H}))
		default:
			p.Msg(f.M, "block", b.Raw())
		}
	}
}

func caseLost(c *hx.Case) {
	c.Bubble(func() {
		n := pick(c.Rand, 3, 10, 25, 60, 150, 400)
		net := nets[c.Rand.Intn(3)]
		f := NewFix(c, net)
		w := &World{Ch: hx.NewChain(c.Rand, net, n)}
		lr := newLocked(c.Rand)
		f.H.Wait = lr.ms(pick(c.Rand, 0, 1, 4))
		np := 2 + c.Rand.Intn(2)
		batch := genBatch(c, n)
		stay := c.Rand.Intn(np) // who stays
		at := c.Rand.Intn(n/batch+1) + 1
		how := c.Rand.Intn(5)
		var ps []*hx.Peer
		lost := make([]bool, np)
		when := 0
		for i := 0; i < np; i++ {
			i := i
			h := f.Honest(w)
			h.Batch = batch
			h.Delay = lr.ms(pick(c.Rand, 0, 3, 40, 80))
			seen := 0
			h.Gate = func(p *hx.Peer, m hx.Sent) bool {
				if i == stay {
					return false
				}
				if lost[i] {
					return true
				}
				if m.Cmd != "getheaders" {
					return false
				}
				seen++
				if seen < at {
					return false
				}
				// it is lost with the request unanswered, or right after the answer
				lost[i] = true
				when = f.H.Count()
				c.Log("%s is lost at %d headers", p.Name, when)
				if when < n {
					c.Count("peers lost while syncing", 1)
				}
				switch how {
				case 0:
					p.EOF()
				case 1:
					p.Reset()
				case 2: // says nothing anymore, not even pong
					c.Count("peers that fall silent", 1)
				case 3: // reads nothing anymore either
					p.C.Stall()
					c.Count("peers that do not read", 1)
				default:
					h2 := *h
					h2.Gate = nil
					h2.On(p, m)
					p.EOF()
				}
				return true
			}
			ps = append(ps, h.Peer(string(rune('A'+i))))
		}
		f.Start(ps[0])
		if !wait(time.Minute, func() bool { return len(ps[0].Sent("sendheaders")) > 0 || ps[0].C.IsClosed() }) {
			c.Violate("no handshake", "the handshake with the first peer is not completed")
			return
		}
		// the others are there before the first is lost
		for i, p := range ps[1:] {
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer %d: %v", i+1, err)
				return
			}
		}
		if c.Rand.Intn(3) == 0 {
			time.Sleep(time.Duration(c.Rand.Intn(500)) * time.Millisecond)
			announce(c, f, w, []*hx.Peer{ps[stay]})
		}
		end := int(w.Ch.Height())
		if !wait(20*time.Minute, func() bool { return allStored(f, w.Ch, end) == 0 }) {
			c.Violate("sync ends with the lost peer", "%d of %d headers are not stored (tip %d) though peer %s is still connected; lost %v at %d", allStored(f, w.Ch, end), end, f.H.Tip(), ps[stay].Name, lost, when)
			return
		}
		if !wait(time.Minute, func() bool { ok, _ := f.Started(); return ok }) {
			c.Violate("start does not return", "all headers are stored after losing a peer, Start has not returned")
			return
		}
		if _, err := f.Started(); err != nil {
			c.Violate("start fails", "Start: %v", err)
		}
		for i, p := range ps {
			limit := 10 * time.Second
			if how == 2 || how == 3 { // with the pings
				limit = 5 * time.Minute
			}
			if lost[i] && !wait(limit, p.C.IsClosed) {
				c.Violate("lost connection not closed", "peer %s disconnected, its connection is still open", p.Name)
			}
		}
		c.Count("headers stored", end)
		c.Count("starts that succeeded", 1)
		c.Sig("n=%d batch=%d peers=%d stay=%d at=%d how=%d when=%d", n, batch, np, stay, at, how, when)
	})
}
