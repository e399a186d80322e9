package scanx

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// control starts and stops a scanner, and knows when it did.
type control struct {
	c    *hx.Case
	s    scanner.Service
	d    *desk
	mu   sync.Mutex
	runs int
}

// start starts the scanner and reads its reports until the end of the case, in
// the way asked for. The run ends with the call of stop.
func (k *control) start(end <-chan struct{}, delay func() time.Duration) *running {
	ch, err := k.s.Start()
	if err != nil {
		k.c.Violate("start fails", "Start after %d runs: %v", k.runs, err)
		k.c.Abort()
	}
	k.mu.Lock()
	k.runs++
	k.mu.Unlock()
	k.c.Log("started")
	x := &running{k: k}
	k.c.Go(func() {
		for {
			if delay != nil {
				if t := delay(); t > 0 {
					select {
					case <-time.After(t):
					case <-end:
						return
					}
				}
			}
			select {
			case rep, ok := <-ch:
				if !ok {
					x.over()
					return
				}
				if at := x.stopped.Load(); at != 0 && time.Now().UnixNano() > at {
					k.c.Violate("report after stop", "a report is delivered %v after Stop returned: %s at %d", time.Duration(time.Now().UnixNano()-at), hx.Hash(rep.Transaction.TxHash()), rep.BlockHeight)
				}
				k.d.take(rep)
			case <-end:
				return
			}
		}
	})
	return x
}

type running struct {
	k       *control
	stopped atomic.Int64
}

func (x *running) over() {
	if x.stopped.Load() == 0 {
		x.k.c.Violate("reports end", "the channel of the reports is closed while the scanner runs")
	}
}

func (x *running) stop() {
	t := time.Now()
	x.k.s.Stop()
	now := time.Now()
	if now.Sub(t) > time.Second {
		x.k.c.Violate("slow stop", "Stop took %v", now.Sub(t))
	}
	x.stopped.Store(now.UnixNano())
	x.k.c.Log("stopped")
	x.k.c.Count("stops", 1)
}

var spun atomic.Int64

// TestC19: the life cycle of the scanner.
func TestC19(t *testing.T) {
	hx.Main(t, "C19", "Race detector build. A case is a scanner that is started, stopped and given requests at drawn moments, with slow stores and slow, pausing or absent consumers; distinct by moments and what was going on.", func(r *hx.Run) {
		r.EndsIn(10 * time.Second)
		r.Require("stops", "restarts", "reports", "second start refused", "requests while stopped", "stops while busy", "concurrent starts", "stops of a scanner that is not started", "idle minutes", "wake-ups", "stops while a report waits", "handoffs", "users that leave")

		r.Cases("life", r.N(350, 10000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1+c.Rand.Intn(4))
				total := 1 + c.Rand.Intn(20)
				density := 20 + c.Rand.Intn(80)
				for i := 0; i < total; i++ {
					w.mine(density)
				}
				initial := c.Rand.Intn(total + 1)
				for h := 1; h <= initial; h++ {
					w.showFilter(uint32(h))
				}
				w.show(uint32(initial))
				slow := []int{0, 20, 400, 3000}[c.Rand.Intn(4)]
				if slow > 0 {
					w.Delay = func(op string, h uint32) time.Duration { return ms(w.r, slow) }
				}
				s := w.scanner()
				d := newDesk(w)
				k := &control{c: c, s: s, d: d}
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				span := []int{500, 5000, 60000}[c.Rand.Intn(3)]
				done := make(chan struct{}, 2)
				var up atomic.Bool
				c.Go(func() {
					defer func() { done <- struct{}{} }()
					for h := initial; h < total; {
						time.Sleep(ms(w.r, 2*span/(total-initial+1)))
						h++
						if w.r.Intn(2) == 0 {
							w.showFilter(uint32(h))
						}
						w.show(uint32(h))
					}
				})
				c.Go(func() {
					defer func() { done <- struct{}{} }()
					n := 1 + w.r.Intn(8)
					for i := 0; i < n; i++ {
						time.Sleep(ms(w.r, 2*span/n))
						if !up.Load() {
							c.Count("requests while stopped", 1)
						}
						d.watch(s, d.randRequest(0, uint32(total+1), nil))
					}
				})
				n := 1 + c.Rand.Intn(6)
				if c.Rand.Intn(8) == 0 {
					s.Stop()
					c.Count("stops of a scanner that is not started", 1)
				}
				for i := 0; i < n; i++ {
					time.Sleep(ms(w.r, span/n))
					var delay func() time.Duration
					kind := c.Rand.Intn(4)
					switch kind {
					case 0:
						delay = func() time.Duration { return ms(w.r, 1500) }
					case 1:
						delay = func() time.Duration { return time.Hour } // nobody reads
					}
					calls := w.calls.Load()
					x := k.start(end, delay)
					up.Store(true)
					if i > 0 {
						c.Count("restarts", 1)
					}
					if c.Rand.Intn(3) == 0 {
						if _, err := s.Start(); err == nil {
							c.Violate("second start accepted", "Start of a scanner that is started is accepted")
						}
						c.Count("second start refused", 1)
					}
					time.Sleep(ms(w.r, []int{0, 1, 300, 2 * span / n}[c.Rand.Intn(4)]))
					if w.calls.Load() > calls {
						c.Count("stops while busy", 1)
						if kind < 2 && slow == 0 {
							c.Count("stops while a report waits", 1)
						}
					}
					up.Store(false)
					x.stop()
					if c.Rand.Intn(8) == 0 {
						s.Stop()
						c.Count("stops of a scanner that is not started", 1)
					}
				}
				<-done
				<-done
				x := k.start(end, nil)
				c.Settle(2*time.Minute + time.Duration(2*slow*(total+2)*(len(d.reqs)+1)*4)*time.Millisecond)
				due := d.compare("two minutes after the last start")
				c.Count("reports", due)
				x.stop()
				time.Sleep(time.Duration(4*slow+1000) * time.Millisecond) // what it was doing is over
				calls := w.calls.Load()
				time.Sleep(time.Minute)
				if m := w.calls.Load(); m != calls {
					c.Violate("busy after stop", "%d calls of the stores in the minute after the stop", m-calls)
				}
				c.Sig("%d blocks, span %d, slow %d, %d stops, %d due", total, span, slow, n, due)
			})
		})

		// users that leave and come back, under the same name
		r.Cases("leaves", r.N(160, 4000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1+c.Rand.Intn(3))
				total := 3 + c.Rand.Intn(20)
				for i := 0; i < total; i++ {
					w.mine(90)
				}
				initial := c.Rand.Intn(total + 1)
				for h := 1; h <= initial; h++ {
					w.showFilter(uint32(h))
				}
				w.show(uint32(initial))
				slow := []int{0, 0, 20, 400, 3000}[c.Rand.Intn(5)]
				if slow > 0 {
					w.Delay = func(op string, h uint32) time.Duration { return ms(w.r, slow) }
				}
				s := w.scanner()
				d := newDesk(w)
				k := &control{c: c, s: s, d: d}
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				span := []int{500, 5000, 60000}[c.Rand.Intn(3)]
				users := 2 + c.Rand.Intn(4)
				done := make(chan struct{}, users+1)
				c.Go(func() {
					defer func() { done <- struct{}{} }()
					for h := initial; h < total; {
						time.Sleep(ms(w.r, 2*span/(total-initial+1)))
						h++
						if w.r.Intn(2) == 0 {
							w.showFilter(uint32(h))
						}
						w.show(uint32(h))
					}
				})
				for i := 0; i < users; i++ {
					id := randUUID(c.Rand)
					n := 2 + c.Rand.Intn(8)
					c.Go(func() {
						defer func() { done <- struct{}{} }()
						for j := 0; j < n; j++ {
							time.Sleep(ms(w.r, 2*span/n))
							if w.r.Intn(3) == 0 {
								d.leave(s, id)
								c.Count("users that leave", 1)
								if w.r.Intn(2) == 0 {
									continue
								}
							}
							q := d.randRequest(0, uint32(total+1), nil)
							q.id = id
							d.watch(s, q)
						}
					})
				}
				for i := c.Rand.Intn(4); i > 0; i-- {
					var delay func() time.Duration
					if c.Rand.Intn(2) == 0 {
						delay = func() time.Duration { return ms(w.r, 1500) }
					}
					x := k.start(end, delay)
					time.Sleep(ms(w.r, span/2))
					x.stop()
					if c.Rand.Intn(2) == 0 {
						time.Sleep(ms(w.r, span/4))
					}
				}
				x := k.start(end, nil)
				for i := 0; i <= users; i++ {
					<-done
				}
				c.Settle(2*time.Minute + time.Duration(2*slow*(total+2)*(len(d.reqs)+1)*4)*time.Millisecond)
				due := d.compare("two minutes later")
				c.Count("reports", due)
				x.stop()
				if due > 0 {
					c.Sig("%d blocks, span %d, slow %d, %d users, %d due", total, span, slow, users, due)
				}
			})
		})

		// started and stopped by many at once
		r.Cases("at once", r.N(150, 3000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 2)
				for i := 0; i < 4; i++ {
					w.mine(80)
					w.showFilter(uint32(i + 1))
				}
				w.show(uint32(c.Rand.Intn(5)))
				s := w.scanner()
				d := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				rounds := 1 + c.Rand.Intn(4)
				for i := 0; i < rounds; i++ {
					n := 2 + c.Rand.Intn(6)
					var ok atomic.Int32
					var wg sync.WaitGroup
					at := c.Rand.Intn(2)
					for j := 0; j < n; j++ {
						q := d.randRequest(0, 5, nil)
						watch := c.Rand.Intn(2) == 0
						wg.Add(1)
						c.Go(func() {
							defer wg.Done()
							time.Sleep(ms(w.r, at))
							ch, err := s.Start()
							if err == nil {
								ok.Add(1)
								d.listen(ch, end, nil)
							}
							if watch {
								d.watch(s, q)
							}
						})
					}
					wg.Wait()
					c.Count("concurrent starts", n)
					if ok.Load() != 1 {
						c.Violate("several scanners", "%d of %d simultaneous starts were accepted", ok.Load(), n)
					}
					time.Sleep(ms(w.r, []int{0, 500, 5000}[c.Rand.Intn(3)]))
					if i == rounds-1 {
						break
					}
					t := time.Now()
					for j := 0; j < n; j++ {
						wg.Add(1)
						c.Go(func() { defer wg.Done(); s.Stop() })
					}
					wg.Wait()
					c.Count("stops", n)
					if d := time.Since(t); d > time.Second {
						c.Violate("slow stop", "%d simultaneous stops took %v", n, d)
					}
				}
				w.show(4)
				c.Settle(time.Minute)
				due := d.compare("a minute after the last start")
				c.Count("reports", due)
				c.Sig("%d rounds, %d due", rounds, due)
			})
		})

		// requests at the very moment the scanner looks for one, or goes to sleep
		r.Cases("wake-up", r.N(120, 3000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 3)
				for i := 0; i < 3; i++ {
					w.mine(100)
					w.showFilter(uint32(i + 1))
				}
				for len(w.wanted(request{it: w.watchItem(w.pool[0], nil, true)})) == 0 && w.tip < 200 {
					w.mine(100)
					w.showFilter(w.chain.Height())
					w.show(w.chain.Height())
				}
				s := w.scanner()
				d := newDesk(w)
				k := &control{c: c, s: s, d: d}
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				if c.Rand.Intn(2) == 0 {
					// the poll of the manager and the request fall on the same moment
					w.Delay = func(op string, h uint32) time.Duration { return time.Duration(w.r.Intn(2)) * 50 * time.Millisecond }
				}
				x := k.start(end, nil)
				for i := 0; i < 25 && !c.Failed(); i++ {
					n := 1 + c.Rand.Intn(2)
					wait := time.Duration(c.Rand.Intn(8)) * 50 * time.Millisecond
					var wg sync.WaitGroup
					for j := 0; j < n; j++ {
						q := request{id: randUUID(c.Rand), it: w.watchItem(w.pool[0], nil, true)}
						late := j > 0
						wg.Add(1)
						c.Go(func() {
							defer wg.Done()
							if late {
								time.Sleep(wait)
							}
							d.watch(s, q)
						})
					}
					wg.Wait()
					c.Count("wake-ups", n)
					c.Settle(15 * time.Second)
					d.compare(fmt.Sprintf("fifteen seconds after round %d", i))
					if c.Rand.Intn(6) == 0 {
						x.stop()
						x = k.start(end, nil)
						c.Count("restarts", 1)
					}
				}
				c.Sig("%d", c.Idx)
				x.stop()
			})
		})

		// a request or a stop between the moment the scanner finds nothing to do and
		// the moment it sleeps: the distance between both is drawn in steps of the processor
		seats := make(chan bool, 2) // the others must have a processor of their own
		r.Cases("handoff", r.N(24, 400), func(c *hx.Case) {
			seats <- true
			defer func() { <-seats }()
			c.Bubble(func() {
				w := newWorld(c, 1)
				for i := 0; i < 2; i++ {
					w.mine(100)
					w.showFilter(uint32(i + 1))
				}
				for len(w.wanted(request{it: w.watchItem(w.pool[0], nil, true)})) == 0 && w.tip < 200 {
					w.mine(100)
					w.showFilter(w.chain.Height())
					w.show(w.chain.Height())
				}
				w.show(w.chain.Height())
				it := w.watchItem(w.pool[0], nil, true)
				due := 0
				for _, n := range w.wanted(request{it: it}) {
					_ = n
					due++
				}
				s := w.scanner()
				end := make(chan struct{})
				var got atomic.Int64
				c.Cleanup(func() { s.Stop(); close(end) })
				spin := func(n int) {
					for x := w.r.Intn(n + 1); x > 0; x-- {
						spun.Add(1)
					}
				}
				wide := []int{50, 500, 3000, 10000}[c.Idx%4]
				for i := 0; i < 250 && !c.Failed(); i++ {
					ch, err := s.Start()
					if err != nil {
						c.Violate("start fails", "Start: %v", err)
						return
					}
					quit := make(chan struct{})
					c.Go(func() {
						for {
							select {
							case <-ch:
								got.Add(1)
							case <-quit:
								return
							}
						}
					})
					got.Store(0)
					n := 1 + i%2
					for j := 0; j < n; j++ {
						spin(wide)
						s.Watch(scanner.WithStartBlock(0), scanner.WithWatchItem(it.own))
						if j == 0 && n > 1 {
							time.Sleep(100 * time.Millisecond) // the manager looks for the next one now
						}
					}
					c.Settle(15 * time.Second)
					if k := int(got.Load()); k != n*due {
						c.Violate("request not served", "%d reports of %d fifteen seconds after %d requests (round %d)", k, n*due, n, i)
						return
					}
					c.Count("wake-ups", n)
					if i%3 == 0 {
						spin(wide)
					}
					t := time.Now()
					s.Stop()
					if d := time.Since(t); d > time.Second {
						c.Violate("slow stop", "Stop took %v", d)
					}
					close(quit)
				}
				c.Count("handoffs", 250)
				c.Sig("%d", c.Idx)
			})
		})

		// nothing to do
		r.Cases("idle", r.N(40, 400), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1)
				total := c.Rand.Intn(6)
				for i := 0; i < total; i++ {
					w.mine(0)
					w.showFilter(uint32(i + 1))
				}
				w.show(uint32(total))
				s := w.scanner()
				d := newDesk(w)
				k := &control{c: c, s: s, d: d}
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				kind := c.Rand.Intn(4)
				x := k.start(end, nil)
				limit := 0
				switch kind {
				case 0: // no request
				case 1, 2: // requests that wait for a block
					for n := 1 + c.Rand.Intn(30); n > 0; n-- {
						d.watch(s, request{id: randUUID(c.Rand), pers: true, start: uint32(c.Rand.Intn(total + 3)), it: w.watchItem(randScript(c.Rand), nil, true)})
					}
					limit = 100
				default: // a store that fails all the time
					w.Fault = func(op string, h uint32) error { return failure(w.r, op) }
					d.watch(s, request{id: randUUID(c.Rand), it: w.watchItem(randScript(c.Rand), nil, true)})
					limit = 100
				}
				time.Sleep(time.Minute)
				calls := w.calls.Load()
				time.Sleep(10 * time.Minute)
				if n := int(w.calls.Load() - calls); n > limit*600 {
					c.Violate("busy while idle", "%d calls of the stores in ten minutes without anything to do (%s)", n, []string{"no request", "waiting requests", "waiting requests", "failing stores"}[kind])
				}
				c.Count("idle minutes", 10)
				x.stop()
				c.Sig("%d %d", kind, total)
			})
		})

		// real time and parallelism
		r.Cases("parallel", r.N(8, 60), func(c *hx.Case) {
			w := newWorld(c, 6)
			total := 40
			for i := 0; i < total; i++ {
				w.mine(70)
			}
			for i := 1; i <= 10; i++ {
				w.showFilter(uint32(i))
			}
			w.show(10)
			s := w.scanner()
			d := newDesk(w)
			end := make(chan struct{})
			var wg sync.WaitGroup
			var reqs [][]request
			for i := 0; i < 6; i++ {
				var l []request
				for j := 0; j < 30; j++ {
					l = append(l, d.randRequest(0, uint32(total), nil))
				}
				reqs = append(reqs, l)
			}
			for _, l := range reqs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, q := range l {
						d.watch(s, q)
						runtime.Gosched()
					}
				}()
			}
			wg.Add(2)
			go func() {
				defer wg.Done()
				for h := 11; h <= total; h++ {
					w.showFilter(uint32(h))
					w.show(uint32(h))
					time.Sleep(time.Millisecond)
				}
			}()
			go func() {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					ch, err := s.Start()
					if err != nil {
						c.Violate("start fails", "Start: %v", err)
						return
					}
					d.listen(ch, end, nil)
					time.Sleep(time.Duration(w.r.Intn(4000)) * time.Microsecond)
					s.Stop()
					c.Count("stops", 1)
				}
			}()
			wg.Wait()
			ch, err := s.Start()
			if err != nil {
				c.Violate("start fails", "Start: %v", err)
			} else {
				d.listen(ch, end, nil)
				due := d.due()
				for t := time.Now(); time.Since(t) < 20*time.Second; time.Sleep(5 * time.Millisecond) {
					d.mu.Lock()
					n := d.n
					d.mu.Unlock()
					if n >= due {
						break
					}
				}
				time.Sleep(300 * time.Millisecond)
				c.Count("reports", d.compare("at the end of the parallel use"))
			}
			s.Stop()
			close(end)
			c.Sig("%d", c.Idx)
		})
	})
}
