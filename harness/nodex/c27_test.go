package nodex

import (
	"runtime"
	"testing"
	"time"
	"weak"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC27(t *testing.T) {
	hx.Main(t, "C27", "Each case is a node with a peer that stays, to which crowds of other peers come and go in several rounds: they end the connection before, in and after the handshake, in the midst of a message or of an answer, fall silent, stop reading, or offer no filters. Ten minutes after each round the goroutines of the node, by function, are compared with those before the first round, the connections have to be closed, and after a garbage collection the connections must not be kept anywhere. Distinct by who came and how they went.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Workers(1)
		r.Require("objects in memory compared", "peers that came and went", "rounds", "goroutines compared", "peers that went before the handshake", "peers that went in the midst of a message", "peers dropped by the node", "connections that are not kept")
		r.Cases("memory", r.N(4, 40), caseMemory)
		r.Workers(runtime.GOMAXPROCS(0))
		r.Cases("peers", r.N(160, 5000), caseGone)
	})
}

// live is the number of objects on the heap that are still referred to, and what
// they take.
func live() (objects, bytes int) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapObjects), int(m.HeapAlloc)
}

// caseMemory compares what is kept in memory after a crowd with what is kept after
// the next ones. Nothing else runs meanwhile.
func caseMemory(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		w := &World{Ch: hx.NewChain(r, net, 3)}
		h := f.Honest(w)
		stays := h.Peer("stays")
		f.Start(stays)
		if !wait(time.Minute, func() bool { ok, _ := f.Started(); return ok }) {
			c.Violate("start does not return", "Start has not returned")
			return
		}
		crowd := 250
		how := c.Idx % 4
		visit := func() {
			g := f.Honest(w)
			g.Silent = how == 3
			p := hx.NewPeer(c, "guest", g.On)
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				return
			}
			time.Sleep(time.Second)
			switch how {
			case 1: // it talks
				p.Msg(f.M, "ping", hx.U64(7))
				p.Msg(f.M, "nonsense", hx.U64(7))
				b := w.Ch.Blks[1]
				p.Msg(f.M, "headers", hx.HeadersPayload([]*hx.Header{b.H}))
				time.Sleep(time.Second)
			case 2: // it is pinged
				time.Sleep(130 * time.Second)
			}
			p.EOF()
			time.Sleep(time.Second)
			p.Stop()
		}
		var grown, bytes []int
		was, took := 0, 0
		for round := 0; round < 6 && !c.Failed(); round++ {
			for i := 0; i < crowd && !c.Failed(); i++ {
				visit()
			}
			c.Settle(20 * time.Minute)
			stays.Forget()
			is, takes := live()
			grown = append(grown, is-was)
			bytes = append(bytes, takes-took)
			was, took = is, takes
		}
		c.Count("peers that came and went", 6*crowd)
		c.Count("objects in memory compared", was)
		least := grown[2]
		for _, n := range grown[3:] {
			if n < least {
				least = n
			}
		}
		if least > crowd/2 {
			c.Violate("memory grows", "every %d peers that come and go (kind %d) leave at least %d objects in memory: %v", crowd, how, least, grown)
		}
		c.Sig("memory %d %v", how, grown)
		c.Sample(map[string]interface{}{"peers per round": crowd, "objects more after each round": grown, "bytes more": bytes})
	})
}

func caseGone(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		main := hx.NewChain(r, net, pick(r, 1, 5, 40))
		w := &World{Ch: main}
		lr := newLocked(r)
		h := f.Honest(w)
		f.Start(h.Peer("stays"))
		if !wait(time.Minute, func() bool { ok, _ := f.Started(); return ok }) {
			c.Violate("start does not return", "Start has not returned")
			return
		}
		c.Settle(10 * time.Minute)
		was := c.Running()
		var conns []weak.Pointer[hx.Conn]
		sig := ""
		for round := 1 + r.Intn(3); round > 0; round-- {
			m := pick(r, 1, 3, 12)
			var l []*guest
			for i := 0; i < m; i++ {
				g := newGuest(c, f, w, lr, r.Intn(9))
				sig += g.kind + " "
				l = append(l, g)
				conns = append(conns, weak.Make(g.p.C))
				c.Go(func() { g.visit(c, f, main, lr) })
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
				}
			}
			c.Settle(20 * time.Minute)
			for _, g := range l {
				if !g.p.C.IsClosed() {
					c.Violate("connection not closed", "the connection of a peer that is gone (%s) is still open", g.kind)
					return
				}
				g.p.Stop()
				c.Count("peers that came and went", 1)
				switch g.kind {
				case "silent", "deaf":
					c.Count("peers dropped by the node", 1)
				case "early", "at once", "no filters":
					c.Count("peers that went before the handshake", 1)
				case "half", "half header":
					c.Count("peers that went in the midst of a message", 1)
				}
			}
			c.Count("rounds", 1)
			is := c.Running()
			for _, n := range is {
				c.Count("goroutines compared", n)
			}
			if d := hx.More(was, is); len(d) > 0 {
				c.Violate("left running: "+d[0], "%d peers came and went (%s); goroutines are left in %v", len(conns), sig, d)
				return
			}
		}
		kept := 0
		for i := 0; i < 4; i++ {
			runtime.GC()
			kept = 0
			for _, x := range conns {
				if x.Value() != nil {
					kept++
				}
			}
			if kept == 0 {
				break
			}
		}
		c.Count("connections that are not kept", len(conns)-kept)
		if kept > 2 { // the last ones may still be on somebody's stack
			c.Violate("peers kept", "%d of %d connections of peers that are gone are still referred to (%s)", kept, len(conns), sig)
			return
		}
		c.Count("connections seen kept", kept)
		c.Sig("%s", sig)
		c.Sample(map[string]interface{}{"peers": sig, "goroutines": was, "kept": kept})
	})
}

// guest is a peer that goes.
type guest struct {
	p    *hx.Peer
	kind string
}

func newGuest(c *hx.Case, f *Fix, w *World, lr *lockedRand, kind int) *guest {
	g := &guest{kind: []string{"late", "reset", "early", "at once", "no filters", "silent", "deaf", "half", "half header"}[kind]}
	h := f.Honest(w)
	h.Batch = 1 + lr.Intn(20)
	h.Delay = lr.ms(20)
	switch g.kind {
	case "early", "at once":
		h.Silent = true
	case "no filters":
		h.Services = 9
	case "silent":
		h.NoPong = true
	}
	g.p = hx.NewPeer(c, g.kind, h.On)
	return g
}

func (g *guest) visit(c *hx.Case, f *Fix, main *hx.Chain, lr *lockedRand) {
	p := g.p
	if g.kind == "at once" {
		p.EOF()
	}
	if err := f.Connect(p); err != nil {
		c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
		return
	}
	time.Sleep(time.Duration(lr.Intn(1500)) * time.Millisecond)
	if g.kind != "early" && g.kind != "at once" && g.kind != "no filters" {
		for i := lr.Intn(6); i > 0; i-- {
			anything(c, f, p, []*hx.Chain{main}, lr)
			time.Sleep(time.Duration(lr.Intn(400)) * time.Millisecond)
		}
	}
	if lr.Intn(3) == 0 { // it is there for some pings
		time.Sleep(time.Duration(lr.Intn(400)) * time.Second)
	}
	switch g.kind {
	case "late", "early", "no filters":
		p.EOF()
	case "reset":
		p.Reset()
	case "deaf":
		// the node does not write to one that has not sent its version yet
		if !wait(time.Minute, func() bool { return len(p.Sent("sendheaders")) > 0 }) {
			c.Violate("no handshake", "the handshake of a guest is not completed")
		}
		p.C.Stall()
	case "half":
		b := hx.Frame(f.M, "tx", hx.RandTx(rand2(lr), [][]byte{hx.P2WPKH(rand2(lr))}, true).Bytes())
		p.Send(b[:24+lr.Intn(len(b)-24)])
		p.EOF()
	case "half header":
		b := hx.Frame(f.M, "ping", hx.U64(7))
		p.Send(b[:1+lr.Intn(23)])
		p.EOF()
	}
}
