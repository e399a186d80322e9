package scanx

import (
	"testing"
	"time"

	"github.com/google/uuid"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// TestC17: headers, filters and requests arrive in any order; the reports are
// those the chain asks for.
func TestC17(t *testing.T) {
	hx.Main(t, "C17", "a case is a chain, the moments its headers and filters arrive, and requests of any kind and moment; non-trivial: at least one report is due", func(r *hx.Run) {
		r.TolerateLeaks() // C19
		r.Require("reports", "watch before start", "watch above tip", "watch below tip", "filter after request", "no filter", "one-shot with several matches", "persistent with several blocks", "spent", "headers in batches", "large blocks", "reports of long chains", "reports of crowds")

		// whole histories
		r.Cases("history", r.N(500, 12000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1+c.Rand.Intn(6))
				total := 1 + c.Rand.Intn(24)
				density := 5 + c.Rand.Intn(90)
				w.big = c.Rand.Intn(20) == 0
				for i := 0; i < total; i++ {
					w.mine(density)
				}
				initial := c.Rand.Intn(total + 1)
				span := []int{0, 300, 5000, 30000}[c.Rand.Intn(4)]
				if c.Rand.Intn(3) == 0 {
					w.Delay = func(op string, h uint32) time.Duration { return ms(w.r, 400) }
				}
				filterLate := c.Rand.Intn(3)
				filter := func(h uint32) {
					switch k := w.r.Intn(6); {
					case filterLate == 0 || k < 3:
						w.showFilter(h)
					case k < 5:
						c.Count("filter late", 1)
						c.Go(func() { time.Sleep(ms(w.r, 20000)); w.showFilter(h) })
					default:
						c.Count("no filter", 1)
					}
				}
				for h := 1; h <= initial; h++ {
					filter(uint32(h))
				}
				w.show(uint32(initial))
				s := w.scanner()
				d := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				var started bool
				start := func() {
					ch, err := s.Start()
					if err != nil {
						c.Violate("start fails", "Start: %v", err)
						c.Abort()
					}
					var delay func() time.Duration
					if c.Rand.Intn(3) == 0 {
						delay = func() time.Duration { return ms(w.r, 700) }
					}
					d.listen(ch, end, delay)
					started = true
				}
				if c.Rand.Intn(2) == 0 {
					start()
				}
				n := 1 + c.Rand.Intn(8)
				if c.Rand.Intn(12) == 0 {
					n = 50 + c.Rand.Intn(250)
				}
				done := make(chan struct{}, 2)
				c.Go(func() { // the chain
					defer func() { done <- struct{}{} }()
					for h := initial; h < total; {
						time.Sleep(ms(w.r, 2*span/(total-initial+1)))
						k := 1
						if w.r.Intn(4) == 0 {
							k = 1 + w.r.Intn(5)
							c.Count("headers in batches", 1)
						}
						first := w.r.Intn(8) == 0
						for i := h + 1; i <= h+k && i <= total && first; i++ {
							filter(uint32(i))
						}
						from := h
						h += k
						if h > total {
							h = total
						}
						w.show(uint32(h))
						c.Log("headers up to %d", h)
						for i := from + 1; i <= h && !first; i++ {
							filter(uint32(i))
						}
					}
				})
				ids := []uuid.UUID{randUUID(c.Rand), randUUID(c.Rand)}
				c.Go(func() { // the users
					defer func() { done <- struct{}{} }()
					for i := 0; i < n; i++ {
						time.Sleep(ms(w.r, 2*span/n))
						q := d.randRequest(0, uint32(total+2), ids)
						w.mu.Lock()
						tip := w.tip
						w.mu.Unlock()
						switch {
						case !started:
							c.Count("watch before start", 1)
						case q.start > tip:
							c.Count("watch above tip", 1)
						default:
							c.Count("watch below tip", 1)
						}
						if q.it.spent != nil {
							c.Count("spent", 1)
						}
						d.watch(s, q)
						if w.r.Intn(10) == 0 { // the same again
							d.watch(s, q)
						}
					}
				})
				if !started {
					time.Sleep(ms(w.r, span))
					start()
				}
				<-done
				<-done
				// (a slow consumer may take 0.7 s for each report)
				c.Settle(2*time.Minute + time.Duration(d.due())*time.Second)
				due := d.compare("two minutes after the last event")
				c.Count("reports", due)
				for _, q := range d.reqs {
					l := w.wanted(q)
					if len(l) > 1 && !q.pers {
						c.Count("one-shot with several matches", 1)
					}
					if len(l) > 1 && q.pers {
						c.Count("persistent with several blocks", 1)
					}
					if w.filters != nil && len(l) > 0 {
						c.Count("filter after request", 1)
					}
				}
				if due > 0 {
					c.Sig("%d blocks, %d at first, span %d, filters %d, requests %d, due %d", total, initial, span, filterLate, n, due)
				}
			})
		})

		// long chains in which little matches
		r.Cases("deep", r.N(8, 100), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 4)
				total := []int{999, 1001, 2000, 2001, 2500, 4100}[c.Rand.Intn(6)]
				w.big = c.Rand.Intn(4) == 0
				pool := w.pool
				for i := 0; i < total; i++ {
					w.pool = nil
					if c.Rand.Intn(200) == 0 || i > total-3 {
						w.pool = pool
					}
					w.mine(60)
				}
				w.pool = pool
				initial := total - c.Rand.Intn(3)*c.Rand.Intn(1100)%total
				for h := 1; h <= total; h++ {
					w.showFilter(uint32(h))
				}
				w.show(uint32(initial))
				s := w.scanner()
				d := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				for n := 1 + c.Rand.Intn(4); n > 0; n-- {
					d.watch(s, d.randRequest(0, uint32(total), nil))
				}
				ch, err := s.Start()
				if err != nil {
					c.Violate("start fails", "Start: %v", err)
					c.Abort()
				}
				d.listen(ch, end, nil)
				time.Sleep(ms(w.r, 5000))
				for n := 1 + c.Rand.Intn(4); n > 0; n-- {
					d.watch(s, d.randRequest(0, uint32(total), nil))
				}
				w.show(uint32(total))
				c.Settle(2 * time.Minute)
				due := d.compare("two minutes after the last block of a long chain")
				c.Count("reports of long chains", due)
				c.Count("reports", due)
				if due > 0 {
					c.Sig("deep %d blocks, %d at first, %d due", total, initial, due)
				}
			})
		})

		// hundreds of requests wait at once, next to none of them for what comes
		r.Cases("crowd", r.N(25, 400), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 2)
				total := 2 + c.Rand.Intn(10)
				for i := 0; i < total; i++ {
					w.mine(30)
				}
				initial := c.Rand.Intn(total + 1)
				for h := 1; h <= total; h++ {
					if c.Rand.Intn(6) > 0 {
						w.showFilter(uint32(h))
					}
				}
				w.show(uint32(initial))
				s := w.scanner()
				d := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				n := 150 + c.Rand.Intn(1200)
				low := uint32(c.Rand.Intn(total))
				real := map[int]bool{n - 1: true}
				for k := c.Rand.Intn(4); k > 0; k-- {
					real[c.Rand.Intn(n)] = true
				}
				for i := 0; i < n; i++ {
					if real[i] {
						d.watch(s, d.randRequest(low, low, nil))
						continue
					}
					q := request{id: randUUID(w.r), pers: w.r.Intn(2) == 0, start: low}
					q.it = w.watchItem(randScript(w.r), nil, w.r.Intn(2) == 0)
					d.watch(s, q)
				}
				ch, err := s.Start()
				if err != nil {
					c.Violate("start fails", "Start: %v", err)
					c.Abort()
				}
				d.listen(ch, end, nil)
				time.Sleep(ms(w.r, 5000))
				w.show(uint32(total))
				c.Settle(2 * time.Minute)
				due := d.compare("two minutes after the last block, hundreds of requests")
				c.Count("reports of crowds", due)
				c.Count("reports", due)
				if due > 0 {
					c.Sig("crowd %d of %d requests, %d due", len(real), n, due)
				}
			})
		})

		// a request sits waiting while blocks come one at a time: every one of
		// them is reported within seconds
		r.Cases("live", r.N(60, 1500), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 2+c.Rand.Intn(3))
				total := 20
				for i := 0; i < total; i++ {
					w.mine(60)
				}
				initial := c.Rand.Intn(5)
				for h := 1; h <= initial; h++ {
					w.showFilter(uint32(h))
				}
				w.show(uint32(initial))
				s := w.scanner()
				d := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				ch, err := s.Start()
				if err != nil {
					c.Violate("start fails", "Start: %v", err)
					c.Abort()
				}
				d.listen(ch, end, nil)
				due := 0
				for h := initial + 1; h <= total; h++ {
					for n := c.Rand.Intn(3); n > 0; n-- {
						d.watch(s, d.randRequest(0, uint32(h+1), nil))
					}
					time.Sleep(ms(w.r, 3000))
					w.show(uint32(h))
					if c.Rand.Intn(3) > 0 {
						time.Sleep(ms(w.r, 300))
						w.showFilter(uint32(h))
					}
					c.Settle(20 * time.Second)
					due = d.compare("twenty seconds after the block")
					if c.Failed() {
						return
					}
				}
				c.Count("reports", due)
				c.Count("blocks followed live", total-initial)
				if due > 0 {
					c.Sig("%d initial %d", due, initial)
				}
			})
		})
	})
}
