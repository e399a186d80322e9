package nodex

import (
	"encoding/hex"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC13(t *testing.T) {
	hx.Main(t, "C13", "Race detector build. Each case is a node used by everybody at once: one to five peers that sync, answer, lie, send anything of the protocol and bytes of none, come and go; users that send transactions, subscribe, read the state and add peers. It is stopped at a drawn moment (before, while and after it starts and synchronizes), also several times at once and while peers do not read. Distinct by moment, peers and what was going on.", func(r *hx.Run) {
		r.EndsIn(10 * time.Second)
		r.Require("stops", "stops while synchronizing", "stops before the handshake", "stops after synchronizing", "stops before the start", "stops at once", "starts that ended with an error", "connections closed by the stop", "stalled connections", "messages of peers", "calls of users", "peers that came", "peers that went")
		r.Cases("stress", r.N(400, 12000), func(c *hx.Case) { caseUse(c, false) })
		r.Cases("stop", r.N(1300, 40000), func(c *hx.Case) { caseUse(c, true) })
		r.Cases("stop before start", r.N(120, 2000), caseStopFirst)
	})
}

// anything sends a message of any kind.
func anything(c *hx.Case, f *Fix, p *hx.Peer, chains []*hx.Chain, lr *lockedRand) {
	r := rand2(lr)
	ch := chains[r.Intn(len(chains))]
	blk := ch.Blks[1+r.Intn(len(ch.Blks)-1)]
	c.Count("messages of peers", 1)
	switch r.Intn(18) {
	case 0, 1, 2, 3:
		offer(c, f, p, chains, lr, func(string) {})
	case 4:
		p.Msg(f.M, "tx", hx.RandTx(r, [][]byte{hx.P2WPKH(r)}, true).Bytes())
	case 5: // a transaction of a block, the block
		for _, t := range blk.Txs {
			p.Msg(f.M, "tx", t.Bytes())
		}
		if r.Intn(2) == 0 {
			p.Msg(f.M, "block", blk.Raw())
		}
	case 6:
		if len(blk.Txs) > 0 {
			p.Msg(f.M, "block", blk.Raw())
		}
	case 7:
		p.Msg(f.M, "ping", hx.U64(r.Uint64()))
	case 8:
		p.Msg(f.M, "pong", hx.U64(r.Uint64()))
	case 9:
		p.Msg(f.M, "inv", hx.InvPayload([]hx.Inv{{Type: uint32(1 + r.Intn(3)), Hash: hx.RandHash(r)}}))
	case 10, 11:
		p.Msg(f.M, "getcfilters", hx.GetCFilters{Start: uint32(r.Intn(int(blk.H.Height) + 1)), Stop: blk.Hash}.Payload())
	case 12, 13:
		p.Msg(f.M, "cfilter", hx.CFilter{Block: blk.Hash, Filter: blk.Filter}.Payload())
	case 14:
		p.Msg(f.M, "getheaders", hx.GetHeaders{Version: 70016, Locator: []hx.Hash{blk.Hash}}.Payload())
	case 15: // the handshake again
		p.Msg(f.M, "version", f.Honest(&World{Ch: ch}).Version())
		p.Msg(f.M, "verack", nil)
	case 16: // bytes of no message
		switch r.Intn(4) {
		case 0:
			p.Send(hx.RandBytes(r, r.Intn(100)))
		case 1:
			p.Msg(f.M, others[r.Intn(len(others))], hx.RandBytes(r, r.Intn(200)))
		case 2:
			b := hx.Frame(f.M, "headers", hx.HeadersPayload([]*hx.Header{blk.H}))
			b[24+r.Intn(len(b)-24)] ^= 1
			p.Send(b)
		default:
			p.Msg(f.M, []string{"tx", "block", "headers", "inv", "cfilter", "version", "getcfilters"}[r.Intn(7)], hx.RandBytes(r, 1+r.Intn(8)))
		}
	default:
		p.Msg(f.M, "sendcmpct", append([]byte{1}, hx.U64(1)...))
	}
}

func caseUse(c *hx.Case, stop bool) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		n := pick(r, 2, 10, 60, 200)
		main := hx.NewChain(r, net, n)
		chains := []*hx.Chain{main}
		if r.Intn(2) == 0 {
			chains = append(chains, fork(main, r.Intn(n), 1+r.Intn(10)))
		}
		if pre := pick(r, 0, 0, 1, n/2, n); pre > 0 {
			f.H.Put(main.Blks[1 : pre+1]...)
			for _, b := range main.Blks[1 : pre+1] {
				f.F.Store(b.Hash, b.Filter)
			}
		}
		lr := newLocked(r)
		f.H.Wait = lr.ms(pick(r, 0, 0, 1, 10))
		f.F.Wait = lr.ms(pick(r, 0, 0, 2))
		if r.Intn(4) == 0 {
			f.H.Fail = func(op string, _ int) error {
				if lr.Intn(20) == 0 {
					return errStore
				}
				return nil
			}
		}
		var over atomic.Bool
		var wg sync.WaitGroup
		var pmu sync.Mutex
		var ps []*hx.Peer
		stalls := stop && r.Intn(4) == 0
		seq := 0
		hostile := r.Intn(3) > 0
		mk := func() *hx.Peer {
			q := rand2(lr)
			h := f.Honest(&World{Ch: main})
			h.Batch = pick(q, 1, 3, 20, 2000)
			h.Delay = lr.ms(pick(q, 1, 5, 50))
			h.Silent = q.Intn(12) == 0
			budget := int32(200)
			h.Gate = func(p *hx.Peer, m hx.Sent) bool {
				if m.Cmd == "getheaders" {
					time.Sleep(time.Millisecond)
					return atomic.AddInt32(&budget, -1) < 0
				}
				return over.Load()
			}
			pmu.Lock()
			seq++
			p := h.Peer(string(rune('A' + seq)))
			ps = append(ps, p)
			pmu.Unlock()
			if q.Intn(4) == 0 {
				p.Split = c.CutAt(pick(q, 10, 200))
			}
			return p
		}
		// the peer Start was given, as far as it says nothing but the truth about
		// its height (any version or block of it sets the height to sync to)
		var first *hx.Peer
		var spoke atomic.Bool
		quiet := r.Intn(2) == 0
		busy := func(p *hx.Peer) {
			q := rand2(lr)
			gap := pick(q, 1, 5, 50, 500)
			steps := q.Intn(40)
			leave := q.Intn(4) == 0
			stall := stalls && q.Intn(2) == 0
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				if !hostile {
					steps = steps / 8
				}
				for i := 0; i < steps && !over.Load(); i++ {
					time.Sleep(time.Duration(lr.Intn(gap*1000)) * time.Microsecond)
					if p == first {
						if quiet {
							break
						}
						spoke.Store(true)
					}
					anything(c, f, p, chains, lr)
					if stall && i == steps/2 {
						c.Count("stalled connections", 1)
						p.C.Stall()
					}
				}
				if leave && !over.Load() {
					c.Count("peers that went", 1)
					if lr.Intn(2) == 0 {
						p.EOF()
					} else {
						p.Reset()
					}
				}
			})
		}
		first = mk()
		f.Start(first)
		busy(first)
		// more peers
		for i := r.Intn(5); i > 0; i-- {
			d := time.Duration(r.Intn(pick(r, 1, 100, 3000))) * time.Millisecond
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				time.Sleep(d)
				if over.Load() {
					return
				}
				p := mk()
				if err := f.Connect(p); err == nil {
					c.Count("peers that came", 1)
					busy(p)
				}
			})
		}
		// users
		pool := f.Pool()
		for i := 1 + r.Intn(4); i > 0; i-- {
			kind, steps := r.Intn(4), r.Intn(20)
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				q := rand2(lr)
				for j := 0; j < steps && !over.Load(); j++ {
					time.Sleep(time.Duration(lr.Intn(200)) * time.Millisecond)
					c.Count("calls of users", 1)
					switch kind {
					case 0:
						f.N.SendTransaction(hex.EncodeToString(hx.RandTx(q, [][]byte{hx.P2WPKH(q)}, true).Bytes()))
					case 1:
						if t, err := f.N.GetChainTip(); err == nil {
							_, _ = t.Hash()
						}
					case 2:
						if pool != nil {
							for _, t := range pool.GetMemPool() {
								t := t
								_ = t.TxHash()
							}
						}
					default:
						if pool != nil {
							ch := pool.AddSubscriber("u")
							if lr.Intn(3) > 0 {
								c.Go(func() {
									for e := range ch {
										_ = e.TxID()
									}
								})
							}
						}
					}
				}
			})
		}
		limit := pick(r, 1, 5, 30, 300, 3000, 20000)
		if !stop {
			limit = pick(r, 20000, 200000)
		}
		time.Sleep(time.Duration(r.Intn(limit*1000)) * time.Microsecond)
		moment := "synchronizing"
		if len(first.Sent("sendheaders")) == 0 {
			moment = "before the handshake"
		}
		began, _ := f.Started()
		if began {
			moment = "after synchronizing"
		}
		stored := f.H.Count()
		if !stop {
			over.Store(true)
			wg.Wait()
		}
		if !stopNow(c, f) {
			return
		}
		switch {
		case !stop:
		case began:
			c.Count("stops after synchronizing", 1)
		case moment == "synchronizing":
			c.Count("stops while synchronizing", 1)
		default:
			c.Count("stops before the handshake", 1)
		}
		if !wait(3*time.Second, func() bool { ok, _ := f.Started(); return ok }) {
			c.Violate("start does not return", "the node was stopped (%s, %d headers stored), Start has not returned", moment, stored)
			return
		}
		_, err := f.Started()
		if !began && !spoke.Load() {
			c.Count("stops with a truthful peer", 1)
		}
		if !began && err == nil && !spoke.Load() && stored < n && f.H.Count() < n {
			c.Violate("start succeeds though stopped", "the node was stopped (%s) with %d of %d headers stored, Start returned no error", moment, stored, n)
			return
		}
		if !began && err != nil {
			c.Count("starts that ended with an error", 1)
		}
		over.Store(true)
		wg.Wait()
		pmu.Lock()
		l := append([]*hx.Peer(nil), ps...)
		pmu.Unlock()
		wait(5*time.Second, func() bool {
			for _, p := range l {
				if !p.C.IsClosed() {
					return false
				}
			}
			return true
		})
		for _, p := range l {
			if !p.C.IsClosed() {
				c.Violate("connection left open", "the node was stopped (%s), its connection to %s is still open", moment, p.Name)
				return
			}
			c.Count("connections closed by the stop", 1)
		}
		// everything can still be called
		f.N.SendTransaction(hex.EncodeToString(newPoolTx(c).Bytes()))
		f.N.GetChainTip()
		stopNow(c, f)
		c.Sig("%s n=%d peers=%d stored=%d limit=%d stall=%v t=%d", moment, n, len(l), stored, limit, stalls, lr.Intn(1<<20))
		c.Sample(map[string]interface{}{"stopped": moment, "peers": len(l), "headers stored": stored, "of": n})
	})
}

// stopNow stops the node, maybe several times at once.
func stopNow(c *hx.Case, f *Fix) bool {
	k := pick(c.Rand, 1, 1, 2, 5)
	c.Count("stops", k)
	if k > 1 {
		c.Count("stops at once", k)
	}
	done := make(chan struct{}, k)
	for i := 0; i < k; i++ {
		c.Go(func() {
			f.N.Stop()
			done <- struct{}{}
		})
	}
	t := time.NewTimer(time.Second)
	defer t.Stop()
	for i := 0; i < k; i++ {
		select {
		case <-done:
		case <-t.C:
			c.Violate("stop does not return", "Stop (called %d times at once) has not returned after a second", k)
			return false
		}
	}
	return true
}

// caseStopFirst: the stop comes before the start, or while it connects.
func caseStopFirst(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		f := NewFix(c, nets[r.Intn(3)])
		w := &World{Ch: hx.NewChain(r, f.Net, 5)}
		h := f.Honest(w)
		p := h.Peer("A")
		slow := time.Duration(r.Intn(2000)) * time.Millisecond
		after := time.Duration(-1)
		a, undo := hx.Listen(func() (net.Conn, error) {
			time.Sleep(slow)
			return p.C, nil
		})
		defer undo()
		begin := func() {
			f.began = true
			c.Go(func() { f.start <- f.N.Start(a) })
		}
		if r.Intn(2) == 0 {
			c.Count("stops before the start", 1)
			if !stopNow(c, f) {
				return
			}
			if m := f.Pool(); m != nil && r.Intn(2) == 0 {
				ch := m.AddSubscriber("late")
				m.AddTx(msgTx(newPoolTx(c)))
				select {
				case <-ch:
				default:
				}
			}
			if r.Intn(3) > 0 {
				begin()
			}
			if r.Intn(3) == 0 { // and a peer
				q := h.Peer("B")
				if b, undo2 := hx.Listen(func() (net.Conn, error) { return q.C, nil }); true {
					if x, err := peer.NewElementsPeer(b); err == nil && f.N.AddOutboundPeer(x) == nil {
						c.Settle(5 * time.Second)
						if !q.C.IsClosed() {
							c.Violate("connection left open", "a peer was added to the stopped node, its connection is open")
						}
					}
					undo2()
				}
			}
		} else {
			begin()
			after = time.Duration(r.Intn(3000)) * time.Millisecond
			time.Sleep(after)
			if !stopNow(c, f) {
				return
			}
		}
		if f.began {
			if !wait(8*time.Second, func() bool { ok, _ := f.Started(); return ok }) {
				c.Violate("start does not return", "the node was stopped, Start has not returned (connecting takes %v, stop after %v)", slow, after)
				return
			}
			_, err := f.Started()
			if err == nil && f.H.Count() < 5 {
				c.Violate("start succeeds though stopped", "Start returned no error, %d of 5 headers are stored", f.H.Count())
			}
			if err != nil {
				c.Count("starts that ended with an error", 1)
			}
			c.Settle(5 * time.Second)
			if !p.C.IsClosed() {
				c.Violate("connection left open", "the node is stopped, its connection is open (connecting took %v, stop after %v)", slow, after)
			}
		}
		c.Sig("%v %v %v", slow, after, f.began)
	})
}
