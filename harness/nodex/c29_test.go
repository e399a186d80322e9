package nodex

import (
	"fmt"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC29(t *testing.T) {
	hx.Main(t, "C29", "Each case is a node over a generated chain that grows, in one to three lives on the same stores. Peers leave, fall silent, do not answer some or all requests for filters or for headers or answer late; the stores fail for some time, for all or for some calls; the node is stopped, or its stores are gone from some moment on as if it were killed. In the end all failures are over and one peer that serves everything is connected (others may go on refusing): some minutes later the headers and the filters of the whole chain have to be in the stores. Distinct by lives, failures and what was missing.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("hours that passed", "lives", "headers stored", "filters stored", "filters fetched late", "requests for filters not answered", "requests for headers not answered", "peers that left", "filters the store did not take", "store failures", "stops", "kills", "filters missing at a start", "peers that serve no filters in the end", "cases with filters missing")
		r.Cases("lives", r.N(500, 15000), caseLives)
		r.Cases("unanswered", r.N(250, 8000), caseUnanswered)
		r.Cases("failing store", r.N(250, 8000), caseFailingStore)
	})
}

// lacking returns what the stores lack of the chain.
func lacking(f *Fix, ch *hx.Chain) (headers, filters []uint32) {
	for _, b := range ch.Blks[1:] {
		if !f.H.Has(b.Hash) {
			headers = append(headers, b.H.Height)
		} else if f.F.Of(b.Hash) == nil {
			filters = append(filters, b.H.Height)
		}
	}
	return
}

func few(l []uint32) string {
	if len(l) > 12 {
		return fmt.Sprintf("%v and %d more", l[:12], len(l)-12)
	}
	return fmt.Sprint(l)
}

// pace is how fast peers answer: a node whose store fails asks them again at once.
func pace(lr *lockedRand) func() time.Duration {
	return func() time.Duration { return time.Duration(20+lr.Intn(40)) * time.Millisecond }
}

// flaky makes a peer that does not answer some requests.
func flaky(c *hx.Case, f *Fix, w *World, lr *lockedRand, name string, forget, noHead int) *hx.Peer {
	h := f.Honest(w)
	h.Batch = pick(c.Rand, 1, 7, 2000)
	h.Delay = pace(lr)
	late := pick(c.Rand, 0, 0, 50, 3000)
	h.Gate = func(p *hx.Peer, m hx.Sent) bool {
		switch m.Cmd {
		case "getcfilters":
			if lr.Intn(100) < forget {
				c.Count("requests for filters not answered", 1)
				return true
			}
			if late > 0 {
				h2 := *h
				h2.Gate = nil
				d := time.Duration(lr.Intn(late)) * time.Millisecond
				c.Go(func() {
					time.Sleep(d)
					h2.On(p, m)
				})
				return true
			}
		case "getheaders":
			if lr.Intn(100) < noHead {
				c.Count("requests for headers not answered", 1)
				return true
			}
		}
		return false
	}
	return h.Peer(name)
}

// failing has the stores fail now and then until the returned function is called.
func failing(c *hx.Case, f *Fix, lr *lockedRand, pc int, only string) (end func()) {
	var over atomic.Bool
	g := func(op string, _ int) error {
		if over.Load() || only != "" && op != only || lr.Intn(100) >= pc {
			return nil
		}
		c.Count("store failures", 1)
		return errStore
	}
	f.H.mu.Lock()
	f.H.Fail = g
	f.H.mu.Unlock()
	f.F.mu.Lock()
	f.F.Fail = g
	f.F.mu.Unlock()
	return func() { over.Store(true) }
}

// atLast says what is missing some minutes after the last failure.
func atLast(c *hx.Case, f *Fix, w *World, what string) bool {
	t := time.Now()
	var hs, fs []uint32
	hs, fs = lacking(f, w.Ch)
	was := len(fs)
	if was > 0 {
		c.Count("cases with filters missing", 1)
	}
	ok := wait(15*time.Minute, func() bool {
		w.Do(func(ch *hx.Chain) { hs, fs = lacking(f, ch) })
		return len(hs)+len(fs) == 0
	})
	n := int(w.Ch.Height())
	if len(hs) > 0 {
		c.Violate("headers stay missing", "%s: %d of %d headers are missing %v after the last failure (%s)", what, len(hs), n, time.Since(t), few(hs))
		return false
	}
	if !ok {
		c.Violate("filters stay missing", "%s: %d filters of %d are missing %v after the last failure (%s), a peer that serves them is connected", what, len(fs), n, time.Since(t), few(fs))
		return false
	}
	for _, b := range w.Ch.Blks[1:] {
		if string(f.F.Of(b.Hash)) != string(b.Filter) {
			c.Violate("wrong filter stored", "%s: the filter of %d is another one", what, b.H.Height)
			return false
		}
	}
	c.Count("headers stored", n)
	c.Count("filters stored", n)
	c.Count("filters fetched late", was)
	return true
}

func caseLives(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		n := pick(r, 1, 2, 5, 12, 40, 120)
		w := &World{Ch: hx.NewChain(r, net, n)}
		lr := newLocked(r)
		what := fmt.Sprintf("%d headers", n)
		lives := 1 + r.Intn(3)
		for life := 1; ; life++ {
			c.Count("lives", 1)
			if _, fs := lacking(f, w.Ch); len(fs) > 0 {
				c.Count("filters missing at a start", len(fs))
			}
			end := func() {}
			if r.Intn(2) == 0 {
				pc := pick(r, 2, 20, 60)
				end = failing(c, f, lr, pc, "")
				what += fmt.Sprintf(", %d%% of the calls fail", pc)
			}
			var ps []*hx.Peer
			np := 1 + r.Intn(3)
			for i := 0; i < np; i++ {
				forget := pick(r, 0, 5, 40, 100)
				what += fmt.Sprintf(", %d%% forgotten", forget)
				ps = append(ps, flaky(c, f, w, lr, fmt.Sprintf("%d.%c", life, 'A'+i), forget, pick(r, 0, 0, 30)))
			}
			f.Start(ps[0])
			for _, p := range ps[1:] {
				time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
				f.Connect(p) // may be gone already
			}
			for i := r.Intn(5); i > 0; i-- {
				time.Sleep(time.Duration(r.Intn(pick(r, 50, 3000, 90000))) * time.Millisecond)
				switch r.Intn(3) {
				case 0:
					p := ps[r.Intn(np)]
					if r.Intn(2) == 0 {
						p.EOF()
					} else {
						p.Reset()
					}
					c.Count("peers that left", 1)
					what += ", one left"
				default:
					announce(c, f, w, ps)
				}
			}
			if life == lives {
				end()
				break
			}
			if r.Intn(2) == 0 {
				failing(c, f, lr, 100, "")
				c.Count("kills", 1)
				what += ", killed"
			} else {
				c.Count("stops", 1)
				what += ", stopped"
			}
			f.Again()
			for i := r.Intn(3); i > 0; i-- { // while it is not there
				w.Do(func(ch *hx.Chain) { ch.Add(nil) })
			}
		}
		synctest.Wait()
		ok, err := f.Started()
		if failed := ok && err != nil; failed { // the first peer was gone at once: the user starts again
			c.Count("starts that failed", 1)
			what += ", start failed"
			f.Again()
			f.Start(f.Honest(w).Peer("new"))
		}
		// a peer that serves everything, and maybe one that serves no filters
		if r.Intn(3) == 0 {
			x := f.Honest(w)
			x.NoCF = true
			c.Count("peers that serve no filters in the end", 1)
			what += ", one that serves no filters stays"
			f.Connect(x.Peer("mute"))
		}
		good := f.Honest(w).Peer("good")
		if err := f.Connect(good); err != nil {
			c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
			return
		}
		lost(c, f)
		if atLast(c, f, w, what) {
			c.Sig("%s", what)
			c.Sample(map[string]interface{}{"history": what, "chain": w.Ch.Height(), "asked for filters in the end": len(good.Sent("getcfilters"))})
		}
	})
}

func lost(c *hx.Case, f *Fix) {
	f.F.mu.Lock()
	defer f.F.mu.Unlock()
	c.Count("filters the store did not take", len(f.F.Lost))
}

// caseUnanswered: nothing but some requests that are not answered.
func caseUnanswered(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		n := pick(r, 1, 2, 5, 12, 40, 120)
		w := &World{Ch: hx.NewChain(r, net, n)}
		pre := pick(r, 0, 0, n/2, n)
		f.H.Put(w.Ch.Blks[1 : pre+1]...) // without filters
		if pre > 0 {
			c.Count("filters missing at a start", pre)
		}
		lr := newLocked(r)
		forget := pick(r, 0, 5, 40, 90)
		p := flaky(c, f, w, lr, "A", forget, pick(r, 0, 0, 30, 90, 100))
		forgets := p.On
		if r.Intn(5) == 0 { // all is well for some hours
			p.On = f.Honest(w).On
			f.Start(p)
			hours(c)
			p.On = forgets
		} else {
			f.Start(p)
		}
		// blocks found before the handshake is over are announced by nobody, and the
		// request for them may be one that is not answered
		wait(time.Minute, func() bool { return len(p.Sent("sendheaders")) > 0 })
		for i := r.Intn(4); i > 0; i-- {
			time.Sleep(time.Duration(r.Intn(pick(r, 50, 3000, 90000))) * time.Millisecond)
			w.Do(func(ch *hx.Chain) {
				for k := r.Intn(3) * r.Intn(4); k > 0; k-- { // these are not announced
					ch.Add(nil)
				}
			})
			announce(c, f, w, []*hx.Peer{p})
		}
		time.Sleep(time.Duration(r.Intn(100)) * time.Second)
		if r.Intn(5) == 0 {
			hours(c)
		}
		p.On = f.Honest(w).On // from now on it answers
		what := fmt.Sprintf("%d headers, %d of them stored before, %d%% of the requests forgotten", n, pre, forget)
		if atLast(c, f, w, what) {
			c.Sig("%s, %d", what, len(p.Sent("getcfilters")))
		}
	})
}

// hours pass.
func hours(c *hx.Case) {
	n := 1 + c.Rand.Intn(4)
	time.Sleep(time.Duration(n) * time.Hour)
	c.Count("hours that passed", n)
}

// caseFailingStore: nothing but a store that fails for some time.
func caseFailingStore(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		n := pick(r, 1, 2, 5, 12, 40, 120)
		w := &World{Ch: hx.NewChain(r, net, n)}
		lr := newLocked(r)
		only := []string{"", "", "put", "get", "write", "tip", "locator", "hash"}[r.Intn(8)]
		pc := pick(r, 10, 50, 100)
		h := f.Honest(w)
		h.Batch = pick(r, 1, 7, 2000)
		h.Delay = pace(lr)
		p := h.Peer("A")
		late := r.Intn(2) == 0
		end := func() {}
		if !late {
			end = failing(c, f, lr, pc, only)
		}
		f.Start(p)
		if late {
			time.Sleep(time.Duration(r.Intn(pick(r, 5, 50, 1000))) * time.Millisecond)
			end = failing(c, f, lr, pc, only)
		}
		for i := r.Intn(4); i > 0; i-- {
			time.Sleep(time.Duration(r.Intn(pick(r, 50, 3000, 90000))) * time.Millisecond)
			if len(p.Sent("sendheaders")) == 0 { // a block found now would be announced by nobody
				continue
			}
			announce(c, f, w, []*hx.Peer{p})
		}
		time.Sleep(time.Duration(r.Intn(pick(r, 2, 200))) * time.Second)
		if (only == "put" || only == "get") && r.Intn(3) == 0 { // others make it ask again and again
			hours(c)
		}
		end()
		lost(c, f)
		what := fmt.Sprintf("%d headers, %d%% of the calls %q fail for some time", n, pc, only)
		if !atLast(c, f, w, what) {
			return
		}
		if !wait(time.Minute, func() bool { ok, _ := f.Started(); return ok }) {
			c.Violate("start does not return", "%s: all is stored, Start has not returned", what)
			return
		}
		c.Sig("%s late=%v", what, late)
	})
}
