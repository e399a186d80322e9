package scanx

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

var opNames = []string{"tip", "hash", "filter", "block"}

// failure is an error a store or block source may return.
func failure(r *rand.Rand, op string) error {
	switch r.Intn(5) {
	case 0:
		switch op {
		case "tip":
			return repository.ErrNoBlocksHeaders
		case "hash":
			return repository.ErrBlockNotFound
		case "block":
			return blockservice.ErrorBlockNotFound
		}
	case 1:
		return context.DeadlineExceeded
	case 2:
		return fmt.Errorf("%s: %w", op, errors.New("connection refused"))
	}
	return errStore
}

// TestC18: stores and block source fail for some time.
func TestC18(t *testing.T) {
	hx.Main(t, "C18", "a case is a chain, requests and a pattern of failures of the stores and the block source; non-trivial: a call failed and a report is due", func(r *hx.Run) {
		r.TolerateLeaks() // C19
		r.Require("reports", "failures of tip", "failures of hash", "failures of filter", "failures of block", "reports due while a block is blocked", "requests a blocked block concerns", "later requests served while blocked", "single failures", "long failures")

		// stores fail now and then, or all the time, for some time
		r.Cases("windows", r.N(450, 10000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1+c.Rand.Intn(6))
				total := 1 + c.Rand.Intn(20)
				density := 5 + c.Rand.Intn(90)
				for i := 0; i < total; i++ {
					w.mine(density)
				}
				initial := c.Rand.Intn(total + 1)
				filter := func(h uint32) {
					if w.r.Intn(6) > 0 {
						w.showFilter(h)
					}
				}
				for h := 1; h <= initial; h++ {
					filter(uint32(h))
				}
				w.show(uint32(initial))
				span := []int{2000, 10000, 60000, 60000}[c.Rand.Intn(4)]
				if c.Rand.Intn(20) == 0 {
					span = 4000000 // more than an hour
					c.Count("long failures", 1)
				}
				t0 := time.Now()
				type window struct {
					op       string
					from, to time.Duration
					p        int
				}
				var ws []window
				for n := 1 + c.Rand.Intn(5); n > 0; n-- {
					a := c.Rand.Intn(span)
					x := window{opNames[c.Rand.Intn(4)], ms2(a), ms2(a + 100 + c.Rand.Intn(span)), []int{100, 100, 50, 10}[c.Rand.Intn(4)]}
					if x.to > ms2(span) {
						x.to = ms2(span)
					}
					ws = append(ws, x)
					c.Log("%s fails in %d%% of the calls from %v to %v", x.op, x.p, x.from, x.to)
				}
				lr := c.Rand
				failed := 0
				w.Fault = func(op string, h uint32) error {
					now := time.Since(t0)
					for _, x := range ws {
						if x.op == op && now >= x.from && now < x.to && lr.Intn(100) < x.p {
							c.Count("failures of "+op, 1)
							failed++
							return failure(lr, op)
						}
					}
					return nil
				}
				if c.Rand.Intn(2) == 0 {
					k := []int{5, 100, 2000}[c.Rand.Intn(3)]
					w.Delay = func(op string, h uint32) time.Duration { return ms(lr, k) }
				}
				s := w.scanner()
				d := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				ch, err := s.Start()
				if err != nil {
					c.Violate("start fails", "Start: %v", err)
					c.Abort()
				}
				d.listen(ch, end, nil)
				done := make(chan struct{}, 2)
				c.Go(func() {
					defer func() { done <- struct{}{} }()
					for h := initial; h < total; {
						time.Sleep(ms(w.r, 2*span/(total-initial+1)))
						h++
						w.show(uint32(h))
						time.Sleep(ms(w.r, 500))
						filter(uint32(h))
					}
				})
				c.Go(func() {
					defer func() { done <- struct{}{} }()
					n := 1 + w.r.Intn(8)
					for i := 0; i < n; i++ {
						time.Sleep(ms(w.r, 2*span/n))
						d.watch(s, d.randRequest(0, uint32(total+2), nil))
					}
				})
				<-done
				<-done
				if left := ms2(span) - time.Since(t0); left > 0 {
					time.Sleep(left)
				}
				// (a call may take two seconds, and a block takes up to four of them for each request)
				c.Settle(3*time.Minute + time.Duration(total*len(d.reqs)*8)*time.Second)
				due := d.compare("after the failures")
				c.Count("reports", due)
				if due > 0 && failed > 0 {
					c.Sig("%d blocks, %v, %d due, %d failed", total, ws, due, failed)
				}
			})
		})

		// one call fails, whichever
		r.Cases("single", r.N(300, 6000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 1+c.Rand.Intn(3))
				total := 1 + c.Rand.Intn(6)
				for i := 0; i < total; i++ {
					w.mine(60)
					w.showFilter(uint32(i + 1))
				}
				w.show(uint32(total))
				op, k, times := opNames[c.Rand.Intn(4)], c.Rand.Intn(2*total), 1+c.Rand.Intn(3)
				lr := c.Rand
				n, failed := 0, 0
				w.Fault = func(o string, h uint32) error {
					if o != op {
						return nil
					}
					n++
					if n > k && n <= k+times {
						failed++
						c.Count("single failures", 1)
						c.Log("call %d of %s (%d) fails", n, op, h)
						return failure(lr, op)
					}
					return nil
				}
				s := w.scanner()
				d := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				for n := 1 + c.Rand.Intn(4); n > 0; n-- {
					d.watch(s, d.randRequest(0, uint32(total), nil))
				}
				ch, err := s.Start()
				if err != nil {
					c.Violate("start fails", "Start: %v", err)
					c.Abort()
				}
				d.listen(ch, end, nil)
				c.Settle(time.Minute)
				due := d.compare(fmt.Sprintf("after calls %d to %d of %s failed", k+1, k+times, op))
				c.Count("reports", due)
				if due > 0 && failed > 0 {
					c.Sig("%s %d %d: %d blocks, %d due", op, k, times, total, due)
				}
			})
		})

		// some blocks can't be fetched for a long time
		r.Cases("blocked", r.N(200, 4000), func(c *hx.Case) {
			c.Bubble(func() {
				w := newWorld(c, 3+c.Rand.Intn(6))
				total := 2 + c.Rand.Intn(16)
				density := 10 + c.Rand.Intn(70)
				for i := 0; i < total; i++ {
					w.mine(density)
				}
				initial := c.Rand.Intn(total + 1)
				for h := 1; h <= initial; h++ {
					w.showFilter(uint32(h))
				}
				w.show(uint32(initial))
				blocked := map[uint32]bool{}
				for n := 1 + c.Rand.Intn(3); n > 0; n-- {
					blocked[uint32(1+c.Rand.Intn(total))] = true
				}
				c.Log("blocks that can't be fetched: %v", blocked)
				lr := c.Rand
				kind := c.Rand.Intn(3)
				healed := false
				w.Fault = func(op string, h uint32) error {
					w.mu.Lock()
					defer w.mu.Unlock()
					if op != "block" || healed || !blocked[h] {
						return nil
					}
					c.Count("failures of block", 1)
					if kind == 0 {
						return blockservice.ErrorBlockNotFound
					}
					return failure(lr, op)
				}
				s := w.scanner()
				d := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				ch, err := s.Start()
				if err != nil {
					c.Violate("start fails", "Start: %v", err)
					c.Abort()
				}
				d.listen(ch, end, nil)
				check := func(when string) {
					c.Settle(25 * time.Second)
					must := map[string]int{}
					concerned := 0
					for _, q := range d.reqs {
						limit := w.tip + 1
						for h := range blocked {
							if h >= q.start && h < limit && w.elems[h][string(q.it.filterItem())] {
								limit = h
							}
						}
						if limit <= w.tip {
							concerned++
						}
						for _, k := range w.wantedBelow(q, limit) {
							must[k]++
						}
					}
					due := d.compareTo(when, must)
					c.Count("reports due while a block is blocked", due)
					c.Count("requests a blocked block concerns", concerned)
				}
				for n := 1 + c.Rand.Intn(4); n > 0; n-- {
					d.watch(s, d.randRequest(0, uint32(total+1), nil))
				}
				check("while blocks can't be fetched")
				for h := initial + 1; h <= total && !c.Failed(); h++ {
					w.showFilter(uint32(h))
					w.show(uint32(h))
					if c.Rand.Intn(2) == 0 {
						check(fmt.Sprintf("while blocks can't be fetched, after block %d", h))
					}
					if c.Rand.Intn(2) == 0 {
						q := d.randRequest(0, uint32(total+1), nil)
						d.watch(s, q)
						check("while blocks can't be fetched, after another request")
						c.Count("later requests served while blocked", len(w.wanted(q)))
					}
				}
				check("while blocks can't be fetched, at the end")
				w.mu.Lock()
				healed = true
				w.mu.Unlock()
				c.Settle(time.Minute)
				due := d.compare("after the blocks can be fetched again")
				c.Count("reports", due)
				if due > 0 {
					c.Sig("%d blocks, %d at first, %v blocked, %d due", total, initial, blocked, due)
				}
			})
		})
	})
}

func ms2(n int) time.Duration { return time.Duration(n) * time.Millisecond }
