package scanx

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// delay is how late a well-behaved subscriber may be told.
const delay = 8 * time.Second

// misbehave is what the bad subscribers do; each returns after a while.
var misbehave = map[string]func(p *party, name string){
	"never reads": func(p *party, name string) {
		x, err := p.a.dial(name, false, 200)
		if err != nil {
			return
		}
		for i := 0; i < 3; i++ {
			x.send(p.request().json())
		}
	},
	"reads late": func(p *party, name string) {
		x, err := p.a.dial(name, false, 300+p.c.Rand.Intn(3000))
		if err != nil {
			return
		}
		x.send(p.request().json())
		x.send(p.request().json())
		p.sleep(p.span)
		x.read()
	},
	"resets": func(p *party, name string) {
		x, err := p.a.dial(name, p.c.Rand.Intn(2) == 0, 0)
		if err != nil {
			return
		}
		x.send(p.request().json())
		p.sleep(p.span)
		x.mem.Reset()
	},
	"vanishes": func(p *party, name string) {
		x, err := p.a.dial(name, true, 0)
		if err != nil {
			return
		}
		x.send(p.request().json())
		if p.c.Rand.Intn(2) == 0 {
			p.sleep(p.span)
		}
		x.mem.Close()
	},
	"comes and goes": func(p *party, name string) {
		for i := 0; i < 5; i++ {
			x, err := p.a.dial(fmt.Sprintf("%s.%d", name, i), true, 0)
			if err != nil {
				return
			}
			x.send(p.request().json())
			if i%2 == 0 {
				p.sleep(200)
			}
			x.mem.Close()
		}
	},
	"bad descriptors": func(p *party, name string) {
		x, err := p.a.dial(name, true, 0)
		if err != nil {
			return
		}
		for i := 0; i < 20; i++ {
			s := p.request()
			s.Desc, _ = malformed(p.c.Rand)
			if len(s.Desc) > 300 {
				s.Desc = s.Desc[:300]
			}
			if x.send(s.json()) != nil {
				return
			}
			if p.c.Rand.Intn(3) == 0 {
				p.sleep(p.span / 10)
			}
		}
	},
	"bad descriptors over http": func(p *party, name string) {
		// the endpoint is told what is wrong, as far as it listens
		k := p.a.hook(name, []string{"", "hangs", "black hole", "slow"}[p.c.Rand.Intn(4)])
		for i := 0; i < 8; i++ {
			s := p.request()
			s.Desc, _ = malformed(p.c.Rand)
			s.URL = k.url
			p.a.post(name, s.json())
		}
	},
	"half a frame": func(p *party, name string) {
		x, err := p.a.dial(name, true, 0)
		if err != nil {
			return
		}
		x.send(p.request().json())
		x.mem.Write([]byte{0x81, 0xfe, 1, 0, 1, 2})
	},
	"garbage": func(p *party, name string) {
		x, err := p.a.dial(name, true, 0)
		if err != nil {
			return
		}
		x.send(p.request().json())
		x.mem.SetWriteDeadline(time.Now().Add(time.Second))
		x.mem.Write(hx.RandBytes(p.c.Rand, 300))
	},
	"too long": func(p *party, name string) {
		x, err := p.a.dial(name, true, 0)
		if err != nil {
			return
		}
		x.send(p.request().json())
		x.send([]byte(`{"actionType":"` + strings.Repeat("x", 4000) + `"}`))
	},
	"pings": func(p *party, name string) {
		x, err := p.a.dial(name, p.c.Rand.Intn(2) == 0, 500)
		if err != nil {
			return
		}
		x.send(p.request().json())
		for i := 0; i < 200; i++ {
			x.wmu.Lock()
			err := x.conn.WriteControl(websocket.PingMessage, []byte("ping"), time.Now().Add(time.Second))
			x.wmu.Unlock()
			if err != nil {
				return
			}
		}
	},
	"floods": func(p *party, name string) {
		x, err := p.a.dial(name, p.c.Rand.Intn(3) > 0, 500)
		if err != nil {
			return
		}
		for i := 0; i < 60; i++ {
			s := p.request()
			if p.c.Rand.Intn(3) == 0 {
				s.Action = "unregister"
			}
			if x.send(s.json()) != nil {
				return
			}
		}
	},
	"says good bye": func(p *party, name string) {
		x, err := p.a.dial(name, true, 0)
		if err != nil {
			return
		}
		x.send(p.request().json())
		p.sleep(p.span)
		x.wmu.Lock()
		x.conn.WriteControl(websocket.CloseMessage, []byte{3, 232}, time.Now().Add(time.Second))
		x.wmu.Unlock()
	},
	"slow post": func(p *party, name string) {
		mem, err := p.a.l.Dial(ctx)
		if err != nil {
			return
		}
		p.c.Cleanup(func() { mem.Close() })
		mem.SetWriteDeadline(time.Now().Add(time.Second))
		fmt.Fprintf(mem, "POST /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\nContent-Length: 500\r\n\r\n{\"actionType\"")
	},
	"late handshake": func(p *party, name string) {
		limit := 40
		if p.c.Rand.Intn(3) == 0 {
			limit = p.a.l.Limit
		}
		mem, err := p.a.l.DialLimit(ctx, limit)
		if err != nil {
			return
		}
		p.c.Cleanup(func() { mem.Close() })
		mem.SetWriteDeadline(time.Now().Add(time.Hour))
		fmt.Fprintf(mem, "GET /neutrino/subscribe/ws HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\n")
		if limit == 40 { // the answer does not fit
			fmt.Fprintf(mem, "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n")
		}
		p.mu.Lock()
		p.late = append(p.late, &lateConn{mem, limit == 40})
		p.mu.Unlock()
	},
}

type lateConn struct {
	*hx.MemConn
	asked bool
}

func init() {
	for _, mode := range []string{"hangs", "slow", "fails", "endless", "redirects", "breaks", "refuses", "black hole"} {
		mode := mode
		misbehave["webhook "+mode] = func(p *party, name string) {
			k := p.a.hook(name, mode)
			for i := 0; i < 2; i++ {
				s := p.request()
				s.URL = k.url
				p.a.post(name, s.json())
			}
			if p.c.Rand.Intn(3) == 0 {
				p.sleep(p.span)
				s := p.request()
				s.Action, s.URL = "unregister", k.url
				p.a.post(name, s.json())
			}
		}
	}
}

// party is a mix of subscribers.
type party struct {
	c    *hx.Case
	w    *world
	a    *api
	ds   []*desc
	span int
	mu   sync.Mutex
	late []*lateConn
}

func (p *party) sleep(max int) { time.Sleep(ms(p.c.Rand, max)) }

func (p *party) request() sub {
	return sub{"register", []string{"unspentUtxo"}, p.ds[p.c.Rand.Intn(len(p.ds))].text, p.c.Rand.Intn(3), ""}
}

// good is a well-behaved subscriber.
type good struct {
	box   *inbox
	lease *lease
}

func TestC23(t *testing.T) {
	kinds := make([]string, 0, len(misbehave))
	for k := range misbehave {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	hx.Main(t, "C23", "A case is a service with well-behaved subscribers and a random mix of misbehaving ones of 23 kinds, with blocks arriving, stopped at a random moment: latency of the good ones' events and answers, duration of the stop, connections closed and goroutines ended after it, every message well-formed; under the race detector. Distinct by mix and moment of the stop.", func(r *hx.Run) {
		r.Require("events of good subscribers", "answers of good subscribers", "stops", "stops while busy", "connections closed by the stop", "connections during the stop", "late handshakes", "calls of webhooks under way at once")
		for _, k := range kinds {
			r.Require(k)
		}
		// first, and not in a bubble: what is shared by all services is not bound to one
		// of them
		r.Workers(1)
		failed := false
		r.Cases("storm", r.N(3, 20), func(c *hx.Case) {
			caseStorm(c)
			failed = failed || c.Failed()
		})
		if failed {
			return
		}
		r.Workers(runtime.GOMAXPROCS(0))
		r.Cases("mix", r.N(160, 3000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1)
				ds := purse(c, 1+c.Rand.Intn(3))
				total := 4 + c.Rand.Intn(14)
				for i := 0; i < total; i++ {
					w.payTo(ds)
				}
				initial := c.Rand.Intn(total/2 + 1)
				for h := 1; h <= initial; h++ {
					w.showFilter(uint32(h))
				}
				w.show(uint32(initial))
				a := newAPI(c, w)
				a.start()
				a.serve()
				p := &party{c: c, w: w, a: a, ds: ds, span: []int{3000, 20000, 60000}[c.Rand.Intn(3)]}
				halt := time.Now().Add(ms(c.Rand, 2*p.span))
				if c.Rand.Intn(3) == 0 {
					halt = time.Now().Add(time.Duration(4*p.span)*time.Millisecond + time.Minute)
				}
				over := func() bool { return !time.Now().Before(halt) || c.Failed() }
				// the chain
				c.Go(func() {
					for h := initial; h < total && !over(); {
						p.sleep(2 * p.span / (total - initial + 1))
						h++
						w.showFilter(uint32(h))
						w.show(uint32(h))
					}
				})
				var mu sync.Mutex
				var goods []*good
				for i := 1 + c.Rand.Intn(3); i > 0; i-- {
					who := fmt.Sprintf("good %d", i)
					c.Go(func() {
						p.sleep(p.span / 2)
						if over() {
							return
						}
						x, err := a.dial(who, true, 0)
						if err != nil {
							if !over() {
								c.Violate("connection refused", "%s can't connect: %v", who, err)
							}
							return
						}
						d := ds[c.Rand.Intn(len(ds))]
						l := &lease{who: who, d: d, height: c.Rand.Intn(initial + 2)}
						ask := func(body []byte, want string) bool {
							have := 0
							for _, m := range x.all(0) {
								if m.kind == want {
									have++
								}
							}
							if x.send(body) != nil {
								if !over() {
									c.Violate("good subscriber cut off", "%s can't send", who)
								}
								return false
							}
							for j := 0; j < 100; j++ {
								time.Sleep(50 * time.Millisecond)
								n := 0
								for _, m := range x.all(0) {
									if m.kind == want {
										n++
									}
								}
								if n > have {
									c.Count("answers of good subscribers", 1)
									return true
								}
							}
							if time.Now().Add(-6 * time.Second).Before(halt) {
								return !over()
							}
							c.Violate("good subscriber not answered", "%s waits for five seconds for the answer to %s", who, body)
							return false
						}
						if !ask(sub{"register", []string{"unspentUtxo"}, d.text, l.height, ""}.json(), "success") {
							return
						}
						l.since = time.Now()
						mu.Lock()
						goods = append(goods, &good{&x.inbox, l})
						mu.Unlock()
						for !over() {
							p.sleep(p.span / 3)
							if over() || !ask([]byte(`{"actionType":"what"}`), "error") {
								return
							}
						}
					})
				}
				if c.Rand.Intn(3) > 0 {
					k := a.hook("good webhook", "")
					c.Go(func() {
						p.sleep(p.span / 2)
						if over() {
							return
						}
						d := ds[c.Rand.Intn(len(ds))]
						l := &lease{who: k.name, d: d, height: c.Rand.Intn(initial + 2)}
						asked := time.Now()
						st, b := a.post(k.name, sub{"register", []string{"unspentUtxo"}, d.text, l.height, k.url}.json())
						if o := outcome(st, b); o != "success" {
							if !over() {
								c.Violate("good subscriber not answered", "%s: %s", k.name, o)
							}
							return
						}
						l.since = time.Now()
						if l.since.Sub(asked) > 5*time.Second {
							c.Violate("good subscriber not answered", "%s waits for %v", k.name, l.since.Sub(asked))
						}
						c.Count("answers of good subscribers", 1)
						mu.Lock()
						goods = append(goods, &good{&k.inbox, l})
						mu.Unlock()
					})
				}
				// the others
				n := 1 + c.Rand.Intn(6)
				if c.Rand.Intn(6) == 0 {
					n = 30
				}
				rush := c.Rand.Intn(3) == 0
				var mix []string
				for i := 0; i < n; i++ {
					kind := kinds[c.Rand.Intn(len(kinds))]
					if i == 0 {
						kind = kinds[c.Idx%len(kinds)]
					}
					mix = append(mix, kind)
					c.Count(kind, 1)
					name := fmt.Sprintf("%s %d", kind, i)
					c.Go(func() {
						if !rush {
							p.sleep(p.span / 2)
						}
						if over() {
							return
						}
						misbehave[kind](p, name)
					})
				}
				for !over() {
					time.Sleep(time.Until(halt))
				}
				// the end
				c.Count("stops", 1)
				if w.calls.Load() > 0 && p.span*2 > 10000 {
					c.Count("stops while busy", 1)
				}
				for i := c.Rand.Intn(4); i > 0; i-- {
					c.Count("connections during the stop", 1)
					if c.Rand.Intn(3) == 0 {
						misbehave["late handshake"](p, "last minute")
						continue
					}
					c.Go(func() {
						if x, err := a.dial("last minute", c.Rand.Intn(2) == 0, 0); err == nil {
							x.send(p.request().json())
						}
					})
				}
				order := c.Rand.Intn(3)
				if order == 0 {
					a.srv.Close()
				} else {
					short, cancel := context.WithTimeout(ctx, 2*time.Second)
					a.srv.SetKeepAlivesEnabled(false)
					a.srv.Shutdown(short)
					cancel()
				}
				stopAt := time.Now()
				timed := func(what string, f func()) {
					from := time.Now()
					f()
					if d := time.Since(from); d > 5*time.Second {
						c.Violate("stop takes long", "%s takes %v", what, d)
					}
				}
				timed("stopping the handler", a.h.Stop)
				timed("stopping the scanner", a.s.Stop)
				if c.Rand.Intn(3) == 0 {
					timed("stopping the handler again", a.h.Stop)
				}
				a.once.Do(func() {})
				p.mu.Lock()
				late := p.late
				p.mu.Unlock()
				for _, m := range late {
					c.Go(func() {
						p.sleep(3000)
						if !m.asked {
							fmt.Fprintf(m, "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n")
						}
						m.SetReadDeadline(time.Time{})
						var text []byte
						for {
							b := make([]byte, 1000)
							n, err := m.Read(b)
							text = append(text, b[:n]...)
							if err != nil {
								break
							}
						}
						if strings.Contains(string(text), "101 Switching") {
							c.Count("late handshakes", 1)
						}
					})
				}
				time.Sleep(40 * time.Second)
				a.mu.Lock()
				clients := append([]*wsClient(nil), a.clients...)
				a.mu.Unlock()
				for _, x := range clients {
					if !x.mem.PeerClosed() {
						c.Violate("connection left open", "the connection of %s is still open after the stop", x.name)
					} else {
						c.Count("connections closed by the stop", 1)
					}
				}
				for _, m := range late {
					if (order > 0 || m.asked) && !m.PeerClosed() {
						c.Violate("connection left open", "a connection made right before the stop is still open")
					}
				}
				if n := a.inflight.Load(); n > 0 {
					c.Violate("still busy after the stop", "%d calls of webhooks are still under way", n)
				}
				// what the good ones got
				mu.Lock()
				defer mu.Unlock()
				led := &ledger{}
				for _, g := range goods {
					led.add(g.lease)
				}
				for _, g := range goods {
					got := map[string][]time.Time{}
					for _, m := range g.box.all(0) {
						if m.kind == "event" {
							got[m.text+" "+m.tx] = append(got[m.text+" "+m.tx], m.at)
						}
					}
					_, may := led.expect(w, g.lease.who)
					for k, n := range w.dueOf(g.lease) {
						if ready := n.ready.Add(delay); ready.Before(stopAt) && ready.Before(halt) {
							for i := 0; i < n.n; i++ {
								if i >= len(got[k]) {
									c.Violate("event of a good subscriber missed", "%s: %s, which was there %v before the stop (%v)", g.lease.who, k, stopAt.Sub(n.ready), mix)
								} else if got[k][i].After(ready) {
									c.Violate("event of a good subscriber late", "%s: %s comes %v after its block (%v)", g.lease.who, k, got[k][i].Sub(n.ready), mix)
								} else {
									c.Count("events of good subscribers", 1)
								}
							}
						}
					}
					for k, l := range got {
						if len(l) > may[k] {
							c.Violate("event too many", "%s gets %s %d times instead of %d", g.lease.who, k, len(l), may[k])
						}
					}
				}
				sort.Strings(mix)
				j, _ := json.Marshal(mix)
				c.Sig("%s %d %d %d", j, p.span, len(goods), order)
			})
		})

		// a handler is stopped at odd moments
		r.Cases("odd stops", r.N(40, 600), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1)
				ds := purse(c, 1)
				for i := 0; i < 3; i++ {
					w.payTo(ds)
				}
				w.show(0)
				a := newAPI(c, w)
				started := c.Rand.Intn(4)
				if started > 0 {
					if err := a.svc.Start(); err != nil {
						c.Violate("start fails", "Start: %v", err)
					}
				}
				if started > 1 {
					a.h.Start()
				}
				if started > 2 {
					a.serve()
					p := &party{c: c, w: w, a: a, ds: ds, span: 1}
					c.Go(func() { misbehave["floods"](p, "flood") })
				}
				var wg sync.WaitGroup
				from := time.Now()
				for i := 1 + c.Rand.Intn(3); i > 0; i-- {
					wg.Add(1)
					c.Go(func() {
						defer wg.Done()
						p := ms(c.Rand, 3)
						time.Sleep(p)
						a.h.Stop()
					})
				}
				wg.Wait()
				if c.Rand.Intn(2) == 0 {
					a.svc.Stop()
				}
				a.stop()
				if d := time.Since(from); d > 5*time.Second {
					c.Violate("stop takes long", "it takes %v", d)
				}
				c.Count("odd stops", 1)
				time.Sleep(40 * time.Second)
				a.mu.Lock()
				defer a.mu.Unlock()
				for _, x := range a.clients {
					if !x.mem.PeerClosed() {
						c.Violate("connection left open", "the connection of %s is still open after the stop", x.name)
					}
				}
				c.Sig("%d", c.Idx)
			})
		})
	})
}

// caseStorm: hundreds of calls of webhooks that do not answer are under way, in real
// time, while others are to be notified.
func caseStorm(c *hx.Case) {
	w := newWorld(c, 1)
	w.show(0)
	ds := purse(c, 1)
	for i := 0; i < 4; i++ {
		var txs []*hx.Tx
		for k := 0; k < 10; k++ {
			txs = append(txs, hx.RandTx(c.Rand, [][]byte{ds[0].scripts[c.Rand.Intn(len(ds[0].scripts))]}, false))
		}
		w.mineTxs(txs, nil)
	}
	a := newAPI(c, w)
	a.start()
	a.serve()
	modes := []string{"hangs", "black hole"}
	for i := 0; i < 20; i++ {
		k := a.hook(fmt.Sprintf("hook %d", i), modes[(c.Idx+i/15)%2])
		st, b := a.post(k.name, sub{"register", []string{"unspentUtxo"}, ds[0].text, 1, k.url}.json())
		if o := outcome(st, b); o != "success" {
			c.Violate("subscriber not answered", "%s: %s", k.name, o)
			return
		}
	}
	x, err := a.dial("good", true, 0)
	if err != nil {
		c.Violate("connection refused", "the good one can't connect: %v", err)
		return
	}
	x.send(sub{"register", []string{"unspentUtxo"}, ds[0].text, 1, ""}.json())
	good := a.hook("good webhook", "")
	if o := outcome(a.post(good.name, sub{"register", []string{"unspentUtxo"}, ds[0].text, 1, good.url}.json())); o != "success" {
		c.Violate("subscriber not answered", "%s: %s", good.name, o)
		return
	}
	want := 0
	under := int64(0)
	for h := uint32(1); h <= 4 && !c.Failed(); h++ {
		w.showFilter(h)
		w.show(h)
		shown := time.Now()
		want += 10
		for _, b := range []*inbox{&x.inbox, &good.inbox} {
			for {
				n := 0
				for _, k := range b.events() {
					n += k
				}
				if u := a.inflight.Load(); u > under {
					under = u
				}
				if n >= want {
					c.Count("events of good subscribers", 10)
					break
				}
				if time.Since(shown) > delay {
					c.Violate("event of a good subscriber late", "%s has %d of %d events %v after the block: %d calls of webhooks are under way", b.name, n, want, delay, under)
					return
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
	}
	c.Count("calls of webhooks under way at once", int(under))
	asked := time.Now()
	x.send([]byte(`{"actionType":"what"}`))
	for n := 0; n < 1 && time.Since(asked) < delay; time.Sleep(20 * time.Millisecond) {
		for _, m := range x.all(0) {
			if m.kind == "error" {
				n++
			}
		}
		if n > 0 {
			c.Count("answers of good subscribers", 1)
			asked = time.Time{}
			break
		}
	}
	if !asked.IsZero() {
		c.Violate("good subscriber not answered", "the good one waits for %v", delay)
	}
	c.Sig("storm %d %d", c.Idx, under)
}
