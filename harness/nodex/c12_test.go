package nodex

import (
	"encoding/hex"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC12(t *testing.T) {
	hx.Main(t, "C12", "Each case is a history of a mem-pool: transactions received once or several times, from one or several peers at once, blocks with any of them, subscribers that come at any time, some slow, some that never read; directly at the pool or through a node with up to four peers. Contents and every subscriber's events are compared with a model after each step; steps at once are judged by conservation (entered - confirmed = held). Distinct by history.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("transactions received", "received again", "confirmations", "blocks received", "blocks received again", "events", "subscribers", "subscribers that do not read", "entered again after confirmation", "steps at once", "transactions through a node", "large pools", "huge pools", "subscribers that pause for minutes", "days that passed")
		r.Cases("history", r.N(2500, 80000), caseHistory)
		r.Cases("at once", r.N(1500, 50000), casePoolAtOnce)
		r.Cases("node", r.N(1200, 40000), casePoolNode)
		r.Cases("huge", r.N(3, 60), caseHuge)
	})
}

// sub is a subscriber and what it has to get.
type sub struct {
	id    string
	mute  bool
	slow  time.Duration
	nap   time.Duration
	early bool
	mu    sync.Mutex
	got   map[string]int
	want  map[string]int
	done  chan struct{}
	quit  chan struct{}
}

func subscribe(c *hx.Case, m *node.MemPool, id string, kind int) *sub {
	s := &sub{id: id, got: map[string]int{}, want: map[string]int{}, done: make(chan struct{}), quit: make(chan struct{})}
	c.Count("subscribers", 1)
	ch := m.AddSubscriber(id)
	switch kind {
	case 0:
		s.mute = true
		c.Count("subscribers that do not read", 1)
		close(s.done)
		return s
	case 1:
		s.slow = 20 * time.Millisecond
	case 6: // does something else for minutes, before or while it reads
		s.slow = time.Millisecond
		s.nap = time.Duration(1+c.Rand.Intn(600)) * time.Second
		s.early = c.Rand.Intn(3) == 0
		c.Count("subscribers that pause for minutes", 1)
	case 2: // reads some, then no more
		s.mute = true
		c.Count("subscribers that do not read", 1)
		n := 1 + c.Rand.Intn(3)
		c.Go(func() {
			defer close(s.done)
			for i := 0; i < n; i++ {
				if _, ok := <-ch; !ok {
					return
				}
			}
		})
		return s
	}
	at := c.Rand.Intn(6)
	c.Go(func() {
		defer close(s.done)
		if s.early {
			time.Sleep(s.nap) // before it reads at all
		}
		n := 0
		for e := range ch {
			if n++; n == at && s.nap > 0 {
				time.Sleep(s.nap)
			}
			k := "entered " + e.TxID()
			if e.Type() == node.TxConfirmed {
				k = "confirmed " + e.TxID()
			} else if e.Type() != node.TxUnConfirmed {
				k = fmt.Sprintf("event %d %s", e.Type(), e.TxID())
			}
			s.mu.Lock()
			s.got[k]++
			s.mu.Unlock()
			if s.slow > 0 {
				time.Sleep(s.slow)
			}
		}
	})
	return s
}

// compare judges a subscriber's events.
func (s *sub) compare(c *hx.Case, when string) bool {
	if s.mute {
		return true
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, n := range s.want {
		if s.got[k] != n {
			c.Violate("wrong events", "%s: subscriber %s got %q %d times instead of %d", when, s.id, k, s.got[k], n)
			return false
		}
	}
	for k, n := range s.got {
		if s.want[k] != n {
			c.Violate("wrong events", "%s: subscriber %s got %q %d times instead of %d", when, s.id, k, n, s.want[k])
			return false
		}
	}
	return true
}

func msgTx(t *hx.Tx) protocol.MsgTx {
	m, err := protocol.NewMsgTxFromHex(hex.EncodeToString(t.Bytes()))
	if err != nil {
		panic(fmt.Sprintf("harness: tx: %v", err))
	}
	return m
}

// samePool compares the contents with the model.
func samePool(c *hx.Case, m *node.MemPool, pool map[string]*hx.Tx, when string) bool {
	got := m.GetMemPool()
	for id := range pool {
		if _, ok := got[id]; !ok {
			c.Violate("transaction missing", "%s: %s was received and not confirmed since, the pool does not hold it", when, id)
			return false
		}
	}
	for id, tx := range got {
		t := pool[id]
		if t == nil {
			c.Violate("transaction held wrongly", "%s: the pool holds %s", when, id)
			return false
		}
		tx := tx
		if x := tx.TxHash().String(); x != id {
			c.Violate("wrong transaction held", "%s: under %s the pool holds %s", when, id, x)
			return false
		}
	}
	return true
}

// quiet draws a time of hours, days or weeks.
func quiet(c *hx.Case, days int) time.Duration {
	d := time.Duration(1+c.Rand.Intn(72)) * time.Hour
	if c.Rand.Intn(2) == 0 {
		d = time.Duration(1+c.Rand.Intn(24*days)) * time.Hour
	}
	c.Count("days that passed", int(d/(24*time.Hour)))
	return d
}

func newPoolTx(c *hx.Case) *hx.Tx {
	return hx.RandTx(c.Rand, [][]byte{hx.P2WPKH(c.Rand)}, c.Rand.Intn(3) == 0)
}

// blockOf makes a block that holds the transactions.
func blockOf(c *hx.Case, ch *hx.Chain, txs []*hx.Tx) *hx.Blk {
	b := ch.Next(txs)
	if c.Rand.Intn(2) == 0 {
		ch.Blks = append(ch.Blks, b)
	}
	return b
}

// caseHuge fills a pool with thousands of transactions, which thousands of
// confirmations empty again.
func caseHuge(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		pool := node.NewMemPool()
		m := &pool
		m.Start()
		c.Cleanup(m.Stop)
		ch := hx.NewChain(r, "regtest", 1)
		model := map[string]*hx.Tx{}
		n := 3000 + r.Intn(5000)
		if c.R.Tier == "thorough" {
			n = 3000 + r.Intn(60000)
		}
		sc := [][]byte{hx.P2WPKH(r)}
		subs := []*sub{subscribe(c, m, "early", 0)}
		var txs []*hx.Tx
		for i := 0; i < n; i++ {
			t := hx.RandTx(r, sc, r.Intn(4) == 0)
			m.AddTx(msgTx(t))
			txs = append(txs, t)
			id := t.ID().String()
			model[id] = t
			subs[0].want["entered "+id]++
		}
		synctest.Wait()
		if !samePool(c, m, model, fmt.Sprintf("%d transactions", n)) || !subs[0].compare(c, "filled") {
			return
		}
		subs = append(subs, subscribe(c, m, "late", 0))
		for len(txs) > 0 {
			k := 1 + r.Intn(n)
			if k > len(txs) {
				k = len(txs)
			}
			b := blockOf(c, ch, txs[:k])
			m.CheckTxConfirmed(*b.Block())
			for _, t := range txs[:k] {
				id := t.ID().String()
				delete(model, id)
				for _, s := range subs {
					s.want["confirmed "+id]++
				}
			}
			txs = txs[k:]
			synctest.Wait()
			if !samePool(c, m, model, fmt.Sprintf("%d transactions, %d to be confirmed", n, len(txs))) {
				return
			}
		}
		for _, s := range subs {
			if !s.compare(c, "emptied") {
				return
			}
		}
		c.Count("huge pools", 1)
		c.Sig("huge %d", n)
	})
}

func caseHistory(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		pool := node.NewMemPool()
		m := &pool
		m.Start()
		c.Cleanup(m.Stop)
		ch := hx.NewChain(r, "regtest", 1)
		model := map[string]*hx.Tx{}
		out := map[string]bool{} // confirmed before
		var subs []*sub
		var txs []*hx.Tx
		var blks []*hx.Blk
		event := func(k string) {
			for _, s := range subs {
				s.want[k]++
			}
		}
		hist := ""
		big := r.Intn(80) == 0 // hundreds of transactions at a time, many subscribers
		if big {
			c.Count("large pools", 1)
		}
		k0 := 3 + r.Intn(30)
		for k := 0; k < k0; k++ {
			did := ""
			if k > 0 && r.Intn(20) == 0 { // a quiet time
				time.Sleep(quiet(c, 100))
				hist += "z"
			}
			start := time.Now()
			switch x := r.Intn(10); {
			case x == 0 || k == 0:
				i := 1
				if big {
					i = 1 + r.Intn(8)
				}
				for ; i > 0; i-- {
					kind := r.Intn(7)
					subs = append(subs, subscribe(c, m, fmt.Sprintf("s%d", len(subs)), kind))
					did += fmt.Sprintf("s%d", kind)
				}
			case x < 6:
				i := 1
				if big {
					i = 1 + r.Intn(100)
				}
				for ; i > 0; i-- {
					var t *hx.Tx
					if len(txs) > 0 && r.Intn(3) == 0 {
						t = txs[r.Intn(len(txs))]
						c.Count("received again", 1)
					} else {
						t = newPoolTx(c)
						txs = append(txs, t)
					}
					id := t.ID().String()
					m.AddTx(msgTx(t))
					c.Count("transactions received", 1)
					did = "t"
					if model[id] == nil {
						model[id] = t
						event("entered " + id)
						if out[id] {
							c.Count("entered again after confirmation", 1)
							did = "T"
						}
					}
				}
				if big {
					did = fmt.Sprintf("t*%d", len(txs))
				}
			default:
				var b *hx.Blk
				if len(blks) > 0 && r.Intn(4) == 0 {
					b = blks[r.Intn(len(blks))]
					c.Count("blocks received again", 1)
				} else {
					var l []*hx.Tx
					for _, t := range txs {
						if r.Intn(3) == 0 {
							l = append(l, t)
						}
					}
					for i := r.Intn(3); i > 0; i-- { // never received before
						t := newPoolTx(c)
						l = append(l, t)
						if r.Intn(2) == 0 {
							txs = append(txs, t)
						}
					}
					b = blockOf(c, ch, l)
					blks = append(blks, b)
				}
				m.CheckTxConfirmed(*b.Block())
				c.Count("blocks received", 1)
				did = "b"
				for _, h := range b.IDs {
					id := h.String()
					if model[id] != nil {
						delete(model, id)
						out[id] = true
						event("confirmed " + id)
						c.Count("confirmations", 1)
						if !big {
							did += "+"
						}
					}
				}
			}
			hist += did
			if d := time.Since(start); d > 0 {
				c.Violate("pool is delayed", "step %d (%s) took %v", k, did, d)
				return
			}
			synctest.Wait()
			if (!big || k%4 == 0) && !samePool(c, m, model, fmt.Sprintf("step %d of %s", k, hist)) {
				return
			}
			for _, s := range subs {
				if big && k%8 > 0 {
					break
				}
				if s.slow == 0 && !s.compare(c, fmt.Sprintf("step %d of %s", k, hist)) {
					return
				}
			}
		}
		c.Settle(21*time.Minute + time.Duration(2*len(txs)*k0)*20*time.Millisecond)
		ev := 0
		for _, s := range subs {
			if !s.compare(c, "at the end of "+hist) {
				return
			}
			for _, n := range s.got {
				ev += n
			}
		}
		c.Count("events", ev)
		c.Sig("%s", hist)
		c.Sample(map[string]interface{}{"history": hist, "subscribers": len(subs), "held at the end": len(model), "events": ev})
	})
}

// casePoolAtOnce: many use the pool at the same time.
func casePoolAtOnce(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		pool := node.NewMemPool()
		m := &pool
		m.Start()
		c.Cleanup(m.Stop)
		ch := hx.NewChain(r, "regtest", 1)
		var subs []*sub
		for i := 0; i < 1+r.Intn(4); i++ {
			subs = append(subs, subscribe(c, m, fmt.Sprintf("s%d", i), pick(r, 0, 1, 2, 3, 4, 5)))
		}
		subs = append(subs, subscribe(c, m, "all", 5))
		var txs []*hx.Tx
		for i := 0; i < 1+r.Intn(15); i++ {
			txs = append(txs, newPoolTx(c))
		}
		mixed := r.Intn(2) == 0
		entered := map[string]bool{}
		var wg sync.WaitGroup
		run := func(f func()) {
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				f()
			})
		}
		nb := 0
		mkBlock := func() *hx.Blk {
			nb++
			var l []*hx.Tx
			for _, t := range txs {
				if r.Intn(2) == 0 {
					l = append(l, t)
				}
			}
			return blockOf(c, ch, l)
		}
		add := func(g int) {
			for i := 0; i < g; i++ {
				var l []protocol.MsgTx
				for _, t := range txs {
					if r.Intn(3) > 0 {
						l = append(l, msgTx(t))
						entered[t.ID().String()] = true
					}
				}
				r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
				c.Count("transactions received", len(l))
				run(func() {
					for _, t := range l {
						m.AddTx(t)
					}
				})
			}
		}
		confirmed := map[string]bool{}
		confirm := func(g int) {
			var bs []*hx.Blk
			for i := 0; i < 1+r.Intn(3); i++ {
				bs = append(bs, mkBlock())
			}
			for i := 0; i < g; i++ {
				b := bs[r.Intn(len(bs))]
				for _, h := range b.IDs {
					confirmed[h.String()] = true
				}
				run(func() { m.CheckTxConfirmed(*b.Block()) })
				c.Count("blocks received", 1)
				if i > 0 {
					c.Count("blocks received again", 1)
				}
			}
		}
		g := 1 + r.Intn(5)
		c.Count("steps at once", g)
		c.Count("received again", g-1)
		start := time.Now()
		if mixed {
			add(g)
			confirm(1 + r.Intn(3))
			run(func() { m.GetMemPool() })
			wg.Wait()
			c.Settle(20 * time.Second)
			// conservation: what entered and was not confirmed is held
			held := m.GetMemPool()
			for _, s := range subs {
				if s.mute {
					continue
				}
				s.mu.Lock()
				for _, t := range txs {
					id := t.ID().String()
					in, out := s.got["entered "+id], s.got["confirmed "+id]
					_, h := held[id]
					if in > 0 && !entered[id] || in == 0 && entered[id] {
						c.Violate("wrong events", "subscriber %s got %d events that %s entered (received: %v)", s.id, in, id, entered[id])
					}
					if b := in - out; b != 0 && b != 1 || (b == 1) != h {
						c.Violate("events and contents differ", "subscriber %s: %s entered %d times, was confirmed %d times, held: %v", s.id, id, in, out, h)
					}
					c.Count("events", in+out)
					c.Count("confirmations", out)
				}
				s.mu.Unlock()
				if c.Failed() {
					return
				}
			}
			c.Sig("mixed %d %d %d %d", len(txs), g, nb, len(held))
			return
		}
		add(g)
		wg.Wait()
		if d := time.Since(start); d > 0 {
			c.Violate("pool is delayed", "receiving %d transactions %d times took %v", len(txs), g, d)
			return
		}
		c.Settle(10 * time.Second)
		model := map[string]*hx.Tx{}
		for _, t := range txs {
			if id := t.ID().String(); entered[id] {
				model[id] = t
				for _, s := range subs {
					s.want["entered "+id] = 1
				}
			}
		}
		if !samePool(c, m, model, "received at once") {
			return
		}
		for _, s := range subs {
			if !s.compare(c, "received at once") {
				return
			}
		}
		confirm(1 + r.Intn(6))
		wg.Wait()
		c.Settle(10 * time.Second)
		n := 0
		for id := range confirmed {
			if model[id] != nil {
				delete(model, id)
				n++
				for _, s := range subs {
					s.want["confirmed "+id] = 1
				}
			}
		}
		c.Count("confirmations", n)
		if !samePool(c, m, model, "confirmed at once") {
			return
		}
		ev := 0
		for _, s := range subs {
			if !s.compare(c, "confirmed at once") {
				return
			}
			for _, k := range s.got {
				ev += k
			}
		}
		c.Count("events", ev)
		c.Sig("phases %d %d %d %d %d", len(txs), g, nb, n, len(subs))
	})
}

// casePoolNode: transactions and blocks come from peers.
func casePoolNode(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		m := f.Pool()
		if m == nil {
			c.Errorf("the node's mem-pool is not found")
			return
		}
		n := pick(r, 1, 3, 12)
		w := &World{Ch: hx.NewChain(r, net, n)}
		lr := newLocked(r)
		f.H.Wait = lr.ms(pick(r, 0, 0, 3))
		np := 1 + r.Intn(4)
		var ps []*hx.Peer
		for i := 0; i < np; i++ {
			h := f.Honest(w)
			h.Delay = lr.ms(pick(r, 0, 2, 30))
			ps = append(ps, h.Peer(string(rune('A'+i))))
		}
		var subs []*sub
		subs = append(subs, subscribe(c, m, "s0", 5))
		if r.Intn(2) == 0 {
			subs = append(subs, subscribe(c, m, "s1", r.Intn(5)))
		}
		f.Start(ps[0])
		for _, p := range ps[1:] {
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				return
			}
		}
		early := r.Intn(3) == 0 // transactions and blocks come while it syncs
		if !early {
			c.Settle(5 * time.Second)
		}
		if !wait(20*time.Second, func() bool {
			for _, p := range ps {
				if len(p.Sent("sendheaders")) == 0 {
					return false
				}
			}
			return true
		}) {
			c.Violate("no handshake", "the handshake with %d peers is not completed", np)
			return
		}
		model := map[string]*hx.Tx{}
		var txs []*hx.Tx
		hist := ""
		out := map[string]bool{}
		long := r.Intn(100) == 0
		for round := 0; round < 1+r.Intn(5); round++ {
			if long && round == 1 {
				time.Sleep(quiet(c, 30))
				hist += "z"
			}
			// transactions, each from one or several peers
			k := 1 + r.Intn(5)
			var l []*hx.Tx
			for i := 0; i < k; i++ {
				t := newPoolTx(c)
				if len(txs) > 0 && r.Intn(4) == 0 {
					t = txs[r.Intn(len(txs))]
				}
				l = append(l, t)
				txs = append(txs, t)
			}
			for _, p := range ps {
				if len(ps) > 1 && r.Intn(4) == 0 && p != ps[0] {
					continue
				}
				for _, i := range r.Perm(k) {
					p.Msg(f.M, "tx", l[i].Bytes())
					c.Count("transactions through a node", 1)
				}
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
				}
			}
			for _, t := range l {
				id := t.ID().String()
				if model[id] == nil {
					model[id] = t
					for _, s := range subs {
						s.want["entered "+id]++
					}
					if out[id] {
						c.Count("entered again after confirmation", 1)
					}
				}
			}
			hist += fmt.Sprintf("t%d", k)
			// a peer that has sent a transaction sends the block at once; with
			// several peers the transactions have to be there first
			if np > 1 || r.Intn(2) == 0 {
				c.Settle(2 * time.Second)
				if !samePool(c, m, model, hist) {
					return
				}
				for _, s := range subs {
					if !s.compare(c, hist) {
						return
					}
				}
			}
			if r.Intn(4) == 0 {
				continue
			}
			var in []*hx.Tx
			for _, t := range txs {
				if r.Intn(2) == 0 {
					in = append(in, t)
				}
			}
			if r.Intn(3) == 0 {
				in = append(in, newPoolTx(c))
			}
			in = uniq(in)
			kind := r.Intn(4)
			var b *hx.Blk
			w.Do(func(ch *hx.Chain) {
				switch kind {
				case 0: // far ahead of what the node knows
					save := ch.Blks
					ch.Add(nil)
					b = ch.Next(in)
					ch.Blks = save
				case 1: // one it knows the header of
					save := ch.Blks
					ch.Blks = save[:1+r.Intn(len(save)-1)]
					b = ch.Next(in)
					ch.Blks = save
				default:
					b = ch.Add(in)
				}
			})
			hist += fmt.Sprintf("b%d", kind)
			head := kind > 1 && r.Intn(2) == 0 // its header first
			if head {
				ps[r.Intn(np)].Msg(f.M, "headers", hx.HeadersPayload([]*hx.Header{b.H}))
				hist += "h"
				if r.Intn(2) == 0 {
					c.Settle(time.Second)
				}
			}
			sent := 0
			for i, p := range ps {
				if i > 0 && r.Intn(2) == 0 {
					continue
				}
				for j := 1 + r.Intn(5)/4; j > 0; j-- {
					p.Msg(f.M, "block", b.Raw())
					sent++
				}
			}
			c.Count("blocks received", sent)
			c.Count("blocks received again", sent-1)
			for _, h := range b.IDs {
				if id := h.String(); model[id] != nil {
					delete(model, id)
					out[id] = true
					c.Count("confirmations", 1)
					for _, s := range subs {
						s.want["confirmed "+id]++
					}
				}
			}
			c.Settle(5 * time.Second)
			if !samePool(c, m, model, hist) {
				return
			}
			for _, s := range subs {
				if !s.compare(c, hist) {
					return
				}
			}
		}
		c.Settle(10 * time.Second)
		ev := 0
		for _, s := range subs {
			if !s.compare(c, "at the end of "+hist) {
				return
			}
			for _, k := range s.got {
				ev += k
			}
		}
		c.Count("events", ev)
		c.Sig("peers=%d %s early=%v %d", np, hist, early, ev)
		c.Sample(map[string]interface{}{"peers": np, "history": hist, "events": ev, "held at the end": len(model)})
	})
}

func uniq(l []*hx.Tx) []*hx.Tx {
	seen := map[hx.Hash]bool{}
	var o []*hx.Tx
	for _, t := range l {
		if id := t.ID(); !seen[id] {
			seen[id] = true
			o = append(o, t)
		}
	}
	return o
}
