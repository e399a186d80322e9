package scanx

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// lease is a subscription as its subscriber sees it.
type lease struct {
	who    string
	d      *desc
	height int
	since  time.Time // when it was answered
	asked  time.Time // when its end was asked for, zero if it was not
	until  time.Time // when its end was confirmed
}

// ledger says what every subscriber must and may have been notified.
type ledger struct {
	mu     sync.Mutex
	leases []*lease
}

func (l *ledger) add(x *lease) *lease {
	l.mu.Lock()
	l.leases = append(l.leases, x)
	l.mu.Unlock()
	return x
}

// expect computes the events of a subscriber: at least and at most.
func (l *ledger) expect(w *world, who string) (must, may map[string]int) {
	must, may = map[string]int{}, map[string]int{}
	l.mu.Lock()
	defer l.mu.Unlock()
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range l.leases {
		if x.who != who {
			continue
		}
		for h := uint32(1); h <= w.tip; h++ {
			if int64(h) < int64(x.height) {
				continue
			}
			seen := w.seen[h]
			b := w.chain.Blks[h]
			for i, t := range b.Txs {
				n := 0
				for _, s := range x.d.scripts {
					for _, o := range t.Outs {
						if string(o.Script) == string(s) {
							n++
							break
						}
					}
				}
				k := "unspentUtxo " + b.IDs[i].String()
				if n == 0 {
					continue
				}
				if x.until.IsZero() || !seen.After(x.until) {
					may[k] += n
				}
				ready := seen
				if x.since.After(ready) {
					ready = x.since
				}
				if x.asked.IsZero() || ready.Add(40*time.Second).Before(x.asked) {
					must[k] += n
				}
			}
		}
	}
	return
}

func diff(must, may, got map[string]int) (missing, extra []string) {
	for k, n := range must {
		if got[k] < n {
			missing = append(missing, fmt.Sprintf("%s: %d instead of %d", k, got[k], n))
		}
	}
	for k, n := range got {
		if n > may[k] {
			extra = append(extra, fmt.Sprintf("%s: %d instead of at most %d", k, n, may[k]))
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}

// payTo mines a block that pays to some of the descriptors.
func (w *world) payTo(ds []*desc) {
	var txs []*hx.Tx
	n := w.r.Intn(4)
	if w.big && w.r.Intn(4) == 0 {
		n = 20 + w.r.Intn(100)
	}
	for ; n > 0; n-- {
		var to [][]byte
		for k := 1 + w.r.Intn(3); k > 0; k-- {
			switch x := w.r.Intn(8); {
			case x == 0:
				to = append(to, randScript(w.r))
			case x == 1 && len(to) > 0:
				to = append(to, to[0])
			default:
				d := ds[w.r.Intn(len(ds))]
				to = append(to, d.scripts[w.r.Intn(len(d.scripts))])
			}
		}
		txs = append(txs, hx.RandTx(w.r, to, w.r.Intn(3) == 0))
	}
	w.mineTxs(txs, nil)
}

// purse makes descriptors to subscribe to; long ones do not fit in a request.
func purse(c *hx.Case, n int) (l []*desc) {
	for len(l) < n {
		k := newMaster(c.Rand)
		if c.Rand.Intn(5) == 0 {
			d := &desc{text: "elwpkh(" + k.public().String() + "/7/*)"}
			b := k.public().child(7)
			for i := uint32(0); i < 100; i++ {
				if i < 6 || i > 95 {
					d.scripts = append(d.scripts, wpkh(b.child(i).p.compressed()))
				}
			}
			l = append(l, d)
			continue
		}
		l = append(l, &desc{text: fmt.Sprintf("%s(%x)", []string{"elwpkh", "wpkh"}[c.Rand.Intn(2)], k.p.compressed()), scripts: [][]byte{wpkh(k.p.compressed())}})
	}
	return
}

func TestC22(t *testing.T) {
	hx.Main(t, "C22", "A case is a history of a service: subscribers on web-sockets and webhooks that subscribe (to the same or different descriptors, from any height), un-subscribe, subscribe again, disconnect and come back while blocks arrive. Every subscriber's messages are compared with what the chain asks for. Distinct by history.", func(r *hx.Run) {
		r.TolerateLeaks() // C23
		r.Require("events due", "events", "subscriptions", "un-subscriptions", "subscriptions again", "disconnections", "events of past blocks", "events of new blocks", "webhook events", "descriptors shared", "transactions to several subscribers", "crowds", "events of backlogs")

		r.Cases("history", r.N(260, 6000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1)
				ds := purse(c, 1+c.Rand.Intn(4))
				total := 3 + c.Rand.Intn(20)
				crowd := 4
				if w.big = c.Rand.Intn(30) == 0; w.big {
					crowd = 60
					c.Count("crowds", 1)
				}
				for i := 0; i < total; i++ {
					w.payTo(ds)
				}
				initial := c.Rand.Intn(total + 1)
				for h := 1; h <= initial; h++ {
					w.showFilter(uint32(h))
				}
				w.show(uint32(initial))
				if c.Rand.Intn(4) == 0 {
					w.Delay = func(op string, h uint32) time.Duration { return ms(w.r, 30) }
				}
				a := newAPI(c, w)
				a.start()
				a.serve()
				led := &ledger{}
				span := []int{20000, 120000, 600000}[c.Rand.Intn(3)]
				var wg sync.WaitGroup
				var mu sync.Mutex
				boxes := map[string]*inbox{}
				users := map[*desc]map[string]bool{}
				note := func(who string, b *inbox, d *desc) {
					mu.Lock()
					boxes[who] = b
					if users[d] == nil {
						users[d] = map[string]bool{}
					}
					users[d][who] = true
					mu.Unlock()
				}
				// the chain
				wg.Add(1)
				c.Go(func() {
					defer wg.Done()
					for h := initial; h < total; {
						time.Sleep(ms(w.r, 2*span/(total-initial+1)))
						h += 1 + w.r.Intn(4)/3
						if h > total {
							h = total
						}
						if w.r.Intn(2) == 0 {
							w.showFilter(uint32(h))
						}
						c.Log("headers up to %d", h)
						w.show(uint32(h))
					}
				})
				// subscribers on web-sockets: a new name with each connection
				for i := c.Rand.Intn(crowd); i > 0; i-- {
					i := i
					wg.Add(1)
					c.Go(func() {
						defer wg.Done()
						rounds := 1 + c.Rand.Intn(3)
						for round := 0; round < rounds && !c.Failed(); round++ {
							time.Sleep(ms(c.Rand, span/4))
							who := fmt.Sprintf("ws %d.%d", i, round)
							x := a.mustDial(who)
							var mine []*lease
							for n := 1 + c.Rand.Intn(5); n > 0 && !c.Failed(); n-- {
								time.Sleep(ms(c.Rand, span/5))
								from := x.count()
								answer := func() bool {
									for j := 0; j < 100; j++ {
										time.Sleep(50 * time.Millisecond)
										for _, m := range x.all(from) {
											if m.kind != "event" {
												if m.kind == "error" {
													c.Violate("valid request refused", "%s: %s", who, m.raw)
												}
												return m.kind == "success"
											}
										}
									}
									c.Violate("no answer", "%s waits for five seconds", who)
									return false
								}
								if len(mine) > 0 && c.Rand.Intn(3) == 0 {
									asked := time.Now()
									s := sub{Action: "unregister", Events: []string{"unspentUtxo"}, Desc: mine[0].d.text}
									x.send(s.json())
									if !answer() {
										return
									}
									led.mu.Lock()
									for _, l := range mine {
										l.asked, l.until = asked, time.Now()
									}
									led.mu.Unlock()
									mine = nil
									c.Count("un-subscriptions", 1)
									continue
								}
								d := ds[c.Rand.Intn(len(ds))]
								l := &lease{who: who, d: d, height: c.Rand.Intn(total + 2)}
								if c.Rand.Intn(3) == 0 {
									l.height = 0
								}
								s := sub{"register", [][]string{{"unspentUtxo"}, {"unspentUtxo", "spentUtxo"}, {"unspentUtxo", "unspentUtxo"}}[c.Rand.Intn(3)], d.text, l.height, ""}
								note(who, &x.inbox, d)
								x.send(s.json())
								led.add(l)
								if !answer() {
									return
								}
								led.mu.Lock()
								l.since = time.Now()
								led.mu.Unlock()
								mine = append(mine, l)
								c.Count("subscriptions", 1)
								if n > 1 {
									c.Count("subscriptions again", 1)
								}
							}
							if round < rounds-1 || c.Rand.Intn(3) == 0 {
								time.Sleep(ms(c.Rand, span/5))
								asked := time.Now()
								switch c.Rand.Intn(3) {
								case 0:
									x.mem.Close()
								case 1:
									x.mem.Reset()
								default:
									x.wmu.Lock()
									x.conn.WriteControl(8, []byte{3, 232}, time.Now().Add(time.Second))
									x.wmu.Unlock()
									time.Sleep(time.Second)
									x.mem.Close()
								}
								led.mu.Lock()
								for _, l := range mine {
									l.asked, l.until = asked, time.Now()
								}
								led.mu.Unlock()
								c.Count("disconnections", 1)
							}
						}
					})
				}
				// webhooks
				for i := c.Rand.Intn(crowd); i > 0; i-- {
					i := i
					wg.Add(1)
					c.Go(func() {
						defer wg.Done()
						who := fmt.Sprintf("webhook %d", i)
						k := a.hook(who, "")
						mine := map[*desc][]*lease{}
						for n := 1 + c.Rand.Intn(6); n > 0 && !c.Failed(); n-- {
							time.Sleep(ms(c.Rand, span/4))
							d := ds[c.Rand.Intn(len(ds))]
							s := sub{"register", []string{"unspentUtxo"}, d.text, c.Rand.Intn(total + 2), k.url}
							if len(mine[d]) > 0 && c.Rand.Intn(3) > 0 {
								s.Action = "unregister"
							}
							if s.Action == "register" {
								l := led.add(&lease{who: who, d: d, height: s.Height})
								mine[d] = append(mine[d], l)
								note(who, &k.inbox, d)
								st, b := a.post(who, s.json())
								if o := outcome(st, b); o != "success" {
									c.Violate("valid request refused", "%s: %s", who, o)
									return
								}
								led.mu.Lock()
								l.since = time.Now()
								led.mu.Unlock()
								c.Count("subscriptions", 1)
								continue
							}
							asked := time.Now()
							st, b := a.post(who, s.json())
							if o := outcome(st, b); o != "success" {
								c.Violate("valid request refused", "%s: %s", who, o)
								return
							}
							led.mu.Lock()
							for _, l := range mine[d] {
								l.asked, l.until = asked, time.Now()
							}
							led.mu.Unlock()
							mine[d] = nil
							c.Count("un-subscriptions", 1)
						}
					})
				}
				wg.Wait()
				c.Settle(90 * time.Second)
				all := 0
				var names []string
				for who := range boxes {
					names = append(names, who)
				}
				sort.Strings(names)
				for _, who := range names {
					must, may := led.expect(w, who)
					got := boxes[who].events()
					miss, extra := diff(must, may, got)
					if len(miss) > 0 {
						c.Violate("event missed", "%s: %s", who, strings.Join(miss, "; "))
					}
					if len(extra) > 0 {
						c.Violate("event too many", "%s: %s", who, strings.Join(extra, "; "))
					}
					for _, m := range boxes[who].all(0) {
						if m.kind == "error" {
							c.Violate("unexpected error", "%s gets %s", who, m.raw)
						}
					}
					for _, n := range must {
						all += n
					}
					for k, n := range got {
						c.Count("events", n)
						if strings.HasPrefix(who, "webhook") {
							c.Count("webhook events", n)
						}
						_ = k
					}
				}
				c.Count("events due", all)
				for _, m := range users {
					if len(m) > 1 {
						c.Count("descriptors shared", 1)
						c.Count("transactions to several subscribers", 1)
					}
				}
				led.mu.Lock()
				for _, l := range led.leases {
					if l.height <= initial {
						c.Count("events of past blocks", 1)
					} else {
						c.Count("events of new blocks", 1)
					}
				}
				led.mu.Unlock()
				if all > 0 {
					c.Sig("%d blocks, %d at first, span %d, %d leases, %d due, %v", total, initial, span, len(led.leases), all, names)
				}
			})
		})

		// a subscriber that pauses finds all that came meanwhile
		r.Cases("backlog", r.N(12, 200), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1)
				ds := purse(c, 1)
				n, blocks := 200+c.Rand.Intn(3000), 1+c.Rand.Intn(6)
				want := map[string]int{}
				for b := 0; b < blocks; b++ {
					var txs []*hx.Tx
					for k := n / blocks; k > 0; k-- {
						t := hx.RandTx(c.Rand, [][]byte{ds[0].scripts[c.Rand.Intn(len(ds[0].scripts))]}, false)
						txs = append(txs, t)
						want["unspentUtxo "+t.ID().String()] = 1
					}
					w.mineTxs(txs, nil)
					w.showFilter(uint32(b + 1))
				}
				now := c.Rand.Intn(2) == 0
				if now {
					w.show(uint32(blocks))
				}
				a := newAPI(c, w)
				a.start()
				a.serve()
				s := sub{"register", []string{"unspentUtxo"}, ds[0].text, 0, ""}
				good := a.mustDial("client")
				good.send(s.json())
				x, err := a.dial("client that pauses", false, []int{1, 300, 5000, 70000}[c.Rand.Intn(4)])
				if err != nil {
					c.Violate("connection refused", "%v", err)
					return
				}
				x.send(s.json())
				if !now {
					time.Sleep(time.Second)
					w.show(uint32(blocks))
				}
				time.Sleep(500*time.Millisecond + ms(c.Rand, 2500))
				x.read()
				c.Settle(time.Minute)
				for _, y := range []*wsClient{good, x} {
					got := y.events()
					miss, extra := diff(want, want, got)
					if len(miss) > 0 {
						c.Violate("event missed", "%s: %d of %d, as %s", y.name, len(miss), len(want), miss[0])
					}
					if len(extra) > 0 {
						c.Violate("event too many", "%s: %s", y.name, strings.Join(extra, "; "))
					}
				}
				c.Count("events of backlogs", 2*len(want))
				c.Sig("backlog %d in %d", len(want), blocks)
			})
		})

		// documented, accepted, and never notified
		r.Cases("spent", r.N(6, 60), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1)
				ds := purse(c, 1)
				a := newAPI(c, w)
				a.start()
				a.serve()
				x := a.mustDial("client")
				s := sub{"register", []string{"spentUtxo"}, ds[0].text, 0, ""}
				x.send(s.json())
				pay := hx.RandTx(c.Rand, [][]byte{ds[0].scripts[0]}, false)
				w.mineTxs([]*hx.Tx{pay}, nil)
				w.showFilter(1)
				w.show(1)
				time.Sleep(20 * time.Second)
				spend := hx.RandTx(c.Rand, [][]byte{randScript(c.Rand)}, false)
				spend.Ins[0].Prev, spend.Ins[0].Index = pay.ID(), 0
				w.mineTxs([]*hx.Tx{spend}, [][]byte{ds[0].scripts[0]})
				w.showFilter(2)
				w.show(2)
				c.Settle(time.Minute)
				ev := x.events()
				if ev["spentUtxo "+spend.ID().String()] == 0 {
					c.Count("spends not notified", 1)
					c.R.Known("spentUtxo is accepted but never notified")
				}
				delete(ev, "spentUtxo "+spend.ID().String())
				if len(ev) > 0 {
					c.Violate("event too many", "a subscriber of spentUtxo gets %v", ev)
				}
			})
		})
	})
}

type owed struct {
	n     int
	ready time.Time // when it can be told
}

// dueOf is what one subscription is owed.
func (w *world) dueOf(x *lease) map[string]owed {
	m := map[string]owed{}
	w.mu.Lock()
	defer w.mu.Unlock()
	for h := uint32(1); h <= w.tip; h++ {
		if int64(h) < int64(x.height) {
			continue
		}
		b := w.chain.Blks[h]
		for i, t := range b.Txs {
			n := 0
			for _, s := range x.d.scripts {
				for _, o := range t.Outs {
					if string(o.Script) == string(s) {
						n++
						break
					}
				}
			}
			if n > 0 {
				k := owed{n, w.seen[h]}
				if x.since.After(k.ready) {
					k.ready = x.since
				}
				m["unspentUtxo "+b.IDs[i].String()] = k
			}
		}
	}
	return m
}
