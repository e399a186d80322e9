package nodex

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC07(t *testing.T) {
	hx.Main(t, "C07", "Each case is a node with one to four peers that offer headers and blocks of up to three forked chains, with any heights, in any order and at the same time, over stores that are slow and fail now and then (before or after having written); the heights stored and the tip are judged after every write. Distinct by the sequence of stored heights and the kinds of messages.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("headers stored", "writes that fail", "gaps offered", "headers of a fork stored", "blocks sent", "chain tips read", "write reported failed though done", "cases with several peers")
		r.Cases("hostile", r.N(1200, 40000), func(c *hx.Case) { caseOffers(c, false) })
		r.Cases("faults", r.N(1200, 40000), func(c *hx.Case) { caseOffers(c, true) })
	})
}

// fork makes a chain that shares the first n blocks.
func fork(ch *hx.Chain, n, more int) *hx.Chain {
	f := *ch
	f.Blks = append([]*hx.Blk(nil), ch.Blks[:n+1]...)
	for i := 0; i < more; i++ {
		f.Add(nil)
	}
	return &f
}

func caseOffers(c *hx.Case, faults bool) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		f.H.Watch = true
		n := pick(r, 4, 12, 30, 80)
		main := hx.NewChain(r, net, n)
		chains := []*hx.Chain{main}
		for i := r.Intn(3); i > 0; i-- {
			chains = append(chains, fork(main, r.Intn(n), 1+r.Intn(n)))
		}
		if pre := pick(r, 0, 0, 1, 2, n/2, n); pre > 0 {
			l := main.Blks[1 : pre+1]
			if r.Intn(3) == 0 {
				l = main.Blks[:pre+1]
			}
			f.H.Put(l...)
		}
		lr := newLocked(r)
		f.H.Wait = lr.ms(pick(r, 0, 1, 5, 30))
		if faults {
			pc := pick(r, 3, 10, 25, 50)
			ops := map[string]int{"write": pc, "written": pc / 2}
			if r.Intn(2) == 0 {
				ops["tip"] = pick(r, 1, 10, 30)
			}
			if r.Intn(2) == 0 {
				ops["locator"] = pick(r, 1, 20, 50)
			}
			f.H.Fail = func(op string, _ int) error {
				if lr.Intn(100) < ops[op] {
					switch op {
					case "write":
						c.Count("writes that fail", 1)
					case "written":
						c.Count("write reported failed though done", 1)
					}
					return errStore
				}
				return nil
			}
		}
		np := 1 + r.Intn(4)
		if np > 1 {
			c.Count("cases with several peers", 1)
		}
		var off atomic.Bool
		var mu sync.Mutex
		kinds := map[string]int{}
		seen := func(k string) { mu.Lock(); kinds[k]++; mu.Unlock() }
		var ps []*hx.Peer
		for i := 0; i < np; i++ {
			ch := chains[r.Intn(len(chains))]
			h := f.Honest(&World{Ch: ch})
			h.Batch = pick(r, 1, 2, 5, 20, 2000)
			h.Start = int32(pick(r, 0, 1, n, n+5, 1<<30))
			d := pick(r, 2, 20, 200)
			h.Delay = func() time.Duration { return time.Duration(1+lr.Intn(d)) * time.Millisecond }
			budget := int32(40)
			bad := r.Intn(3)
			h.Gate = func(p *hx.Peer, m hx.Sent) bool {
				if off.Load() {
					return true
				}
				if m.Cmd == "getheaders" {
					if atomic.AddInt32(&budget, -1) < 0 {
						return true
					}
					if bad == 0 && lr.Intn(3) > 0 { // a lie instead
						time.Sleep(time.Millisecond)
						offer(c, f, p, chains, lr, seen)
						return true
					}
				}
				return false
			}
			p := h.Peer(string(rune('A' + i)))
			ps = append(ps, p)
		}
		f.Start(ps[0])
		for _, p := range ps[1:] {
			time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
			}
		}
		// every peer offers at its own pace
		var wg sync.WaitGroup
		for _, p := range ps {
			p := p
			steps, gap := 5+r.Intn(25), pick(r, 1, 10, 100, 1000)
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				for i := 0; i < steps; i++ {
					time.Sleep(time.Duration(lr.Intn(gap*1000)) * time.Microsecond)
					offer(c, f, p, chains, lr, seen)
				}
			})
		}
		// a user watches the tip
		var last uint32
		stop := make(chan struct{})
		done := make(chan struct{})
		every := pick(r, 10, 30, 300)
		c.Go(func() {
			defer close(done)
			for {
				t, err := f.N.GetChainTip()
				if err == nil {
					c.Count("chain tips read", 1)
					if t.Height < last {
						c.Violate("chain tip goes back", "GetChainTip said %d and says %d", last, t.Height)
						return
					}
					last = t.Height
				}
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(1+lr.Intn(every)) * time.Millisecond):
				}
			}
		})
		wg.Wait()
		time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
		off.Store(true)
		close(stop)
		<-done
		c.Settle(5 * time.Second)
		f.H.mu.Lock()
		f.H.Fail, f.H.Wait = nil, nil
		tip, stored, writes := f.H.tip, len(f.H.Heights), f.H.Writes
		forked := 0
		for _, l := range f.H.have {
			if len(l) > 1 {
				forked += len(l) - 1
			}
		}
		f.H.mu.Unlock()
		if stored > 0 {
			h, err := f.N.GetChainTip()
			if err != nil || h.Height != tip {
				c.Violate("wrong chain tip", "GetChainTip: %v %v, the highest header stored is %d", h, err, tip)
			}
		}
		c.Count("headers stored", writes)
		if forked > 0 {
			c.Count("headers of a fork stored", forked)
		}
		var l []string
		for k, v := range kinds {
			l = append(l, fmt.Sprintf("%s:%d", k, v))
			if k == "gap" {
				c.Count("gaps offered", v)
			}
			if k == "block" {
				c.Count("blocks sent", v)
			}
		}
		sort.Strings(l)
		c.Sig("n=%d chains=%d peers=%d tip=%d stored=%d forked=%d %v", n, len(chains), np, tip, stored, forked, l)
		c.Sample(map[string]int{"tip": int(tip), "stored": stored, "writes": writes, "headers at a height already stored": forked, "peers": np, "store failures": f.H.Failed})
	})
}

// offer sends headers or a block, right or not.
func offer(c *hx.Case, f *Fix, p *hx.Peer, chains []*hx.Chain, lr *lockedRand, seen func(string)) {
	ch := chains[lr.Intn(len(chains))]
	top := len(ch.Blks) - 1
	tip := int(f.H.Tip())
	clamp := func(i int) int { return max(0, min(i, top)) }
	from, to := 0, 0
	switch k := lr.Intn(12); k {
	case 0, 1, 2, 3: // what follows, also when it is known
		from = clamp(tip + 1 - lr.Intn(2)*lr.Intn(6))
		to = clamp(from + lr.Intn(10))
		seen("next")
	case 4: // with a gap
		from = clamp(tip + 2 + lr.Intn(4))
		to = clamp(from + lr.Intn(10))
		if from > tip+1 {
			seen("gap")
		}
	case 5:
		from = lr.Intn(top + 1)
		to = clamp(from + lr.Intn(20))
		seen("any")
	case 6: // all of a fork
		from, to = pickL(lr, 0, 1), top
		seen("all")
	case 7, 8:
		b := ch.Blks[clamp(tip+pickL(lr, -1, 0, 1, 1, 1, 2, 5))]
		if b.Txs == nil { // genesis
			return
		}
		seen("block")
		p.Msg(f.M, "block", b.Raw())
		return
	case 9: // out of order
		var l []*hx.Header
		for i := 0; i < 2+lr.Intn(5); i++ {
			l = append(l, ch.Blks[lr.Intn(top+1)].H)
		}
		seen("unordered")
		p.Msg(f.M, "headers", hx.HeadersPayload(l))
		return
	case 10: // heights of nowhere
		var l []*hx.Header
		hgt := []uint32{0xffffffff, 0xfffffffe, 0x80000000, 0, uint32(tip), uint32(tip) + 1, uint32(tip) + 2}[lr.Intn(7)]
		for i := 0; i < 1+lr.Intn(4); i++ {
			h := *ch.Blks[lr.Intn(top+1)].H
			h.Height = hgt
			hgt++
			l = append(l, &h)
		}
		seen("made up")
		p.Msg(f.M, "headers", hx.HeadersPayload(l))
		return
	default: // a block of any height
		b := ch.Blks[max(1, clamp(tip+1))]
		h := *b.H
		h.Height = []uint32{0xffffffff, 0x80000000, 0, uint32(tip) + 1, uint32(tip) + 3}[lr.Intn(5)]
		x := *b
		x.H = &h
		seen("block made up")
		p.Msg(f.M, "block", x.Raw())
		return
	}
	var l []*hx.Header
	for i := from; i <= to; i++ {
		l = append(l, ch.Blks[i].H)
	}
	p.Msg(f.M, "headers", hx.HeadersPayload(l))
}

func pickL(l *lockedRand, x ...int) int { return x[l.Intn(len(x))] }
