package nodex

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC10(t *testing.T) {
	hx.Main(t, "C10", "Each case is a node with one to six peers over 6 to 25 minutes of virtual time. For every ping each peer draws what it does: the right answer in time, late, repeated, never, with a wrong nonce, with the nonce of an earlier ping or of another peer's ping (the others do so as well, also in its place); peers come, go and lose their connection for writing. The times of pings and closes are compared with those the pongs call for. Distinct by what the peers did and when they were dropped.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("pings", "pongs in time", "peers dropped in time", "peers kept to the end", "pongs with another peer's nonce", "pongs repeated", "pongs with a wrong nonce", "peers that went", "pongs late", "long sessions", "peers that do not read", "peers dropped that do not read")
		r.Cases("pings", r.N(4000, 100000), casePings)
	})
}

type pingPeer struct {
	p     *hx.Peer
	ready time.Time
	mu    sync.Mutex
	pings []struct {
		at    time.Time
		nonce string
	}
	pongs []struct {
		at    time.Time
		nonce string
	}
	gone time.Time // by itself
	cut  time.Time // writes fail from here
	hung time.Time // reads nothing from here
	kind int
}

func casePings(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		n := pick(r, 1, 3, 20)
		w := &World{Ch: hx.NewChain(r, net, n)}
		lr := newLocked(r)
		var all sync.Mutex
		var nonces []string
		np := 1 + r.Intn(6)
		long := r.Intn(60) == 0
		if long {
			np = 1 + r.Intn(16)
			c.Count("long sessions", 1)
		}
		// peers that stop reading may hold up the node for a while
		hang := r.Intn(4) == 0
		var pp []*pingPeer
		mk := func(i int) *pingPeer {
			q := &pingPeer{kind: pick(r, 0, 0, 1, 2, 3, 4)}
			h := f.Honest(w)
			h.Batch = pick(r, 1, 5, 2000)
			h.Delay = lr.ms(pick(r, 0, 1, 20))
			maxd := pick(r, 1, 1000, 20000, 59000)
			if hang {
				maxd = pick(r, 1, 1000, 5000)
			}
			pong := func(p *hx.Peer, nonce, what string) {
				q.mu.Lock()
				q.pongs = append(q.pongs, struct {
					at    time.Time
					nonce string
				}{time.Now(), nonce})
				q.mu.Unlock()
				p.Case.Log("%s: %s", p.Name, what)
				p.Case.Count("pongs "+what, 1)
				p.Msg(f.M, "pong", []byte(nonce))
			}
			h.Gate = func(p *hx.Peer, m hx.Sent) bool {
				switch m.Cmd {
				case "sendheaders":
					q.ready = m.At
				case "ping":
					nonce := string(m.Payload)
					q.mu.Lock()
					k := len(q.pings)
					q.pings = append(q.pings, struct {
						at    time.Time
						nonce string
					}{m.At, nonce})
					q.mu.Unlock()
					all.Lock()
					old := append([]string(nil), nonces...)
					nonces = append(nonces, nonce)
					all.Unlock()
					ms := func(a, b int) time.Duration {
						return time.Duration(a+lr.Intn(b-a+1)) * time.Millisecond
					}
					later := func(d time.Duration, f func()) {
						c.Go(func() {
							time.Sleep(d)
							f()
						})
					}
					answer := true
					switch q.kind {
					case 1: // stops answering at some time
						answer = lr.Intn(3) > 0
					case 2: // never
						answer = false
					case 3: // late at some time
						if lr.Intn(3) == 0 {
							answer = false
							later(ms(60500, 130000), func() { pong(p, nonce, "late") })
						}
					}
					if answer {
						d := ms(0, maxd)
						later(d, func() { pong(p, nonce, "in time") })
						for i := lr.Intn(6) - 3; i > 0; i-- {
							later(d+ms(0, 90000), func() { pong(p, nonce, "repeated") })
						}
					}
					if q.kind == 4 || lr.Intn(3) == 0 {
						for i := 1 + lr.Intn(3); i > 0; i-- {
							x := hx.RandBytes(rand2(lr), 8)
							if lr.Intn(4) == 0 {
								x = make([]byte, 8)
							}
							later(ms(0, 60000), func() { pong(p, string(x), "with a wrong nonce") })
						}
						if k > 0 {
							q.mu.Lock()
							x := q.pings[lr.Intn(k)].nonce
							q.mu.Unlock()
							later(ms(0, 60000), func() { pong(p, x, "with an earlier nonce") })
						}
						if len(old) > 0 {
							x := old[len(old)-1-lr.Intn(min(len(old), 6))]
							later(ms(0, 30000), func() { pong(p, x, "with another peer's nonce") })
						}
						// the pings that come next at the others, at once
						later(ms(0, 3000), func() {
							all.Lock()
							l := append([]string(nil), nonces...)
							all.Unlock()
							for _, x := range l[len(old)+1:] {
								pong(p, x, "with another peer's nonce")
							}
						})
					}
					return true
				}
				return false
			}
			q.p = h.Peer(string(rune('A' + i)))
			return q
		}
		pp = append(pp, mk(0))
		f.Start(pp[0].p)
		if !wait(20*time.Second, func() bool { return len(pp[0].p.Sent("sendheaders")) > 0 }) {
			c.Violate("no handshake", "the handshake with the first peer is not completed")
			return
		}
		begin := time.Now()
		length := time.Duration(pick(r, 6, 9, 25)) * time.Minute
		if long {
			length = time.Duration(60+r.Intn(240)) * time.Minute
		}
		spread := pick(r, 0, 1000, 240000)
		var wg sync.WaitGroup
		for i := 1; i < np; i++ {
			q := mk(i)
			pp = append(pp, q)
			d := time.Duration(r.Intn(spread+1)) * time.Millisecond
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				time.Sleep(d)
				err := f.Connect(q.p)
				q.mu.Lock()
				lost := !q.gone.IsZero() || !q.cut.IsZero() || !q.hung.IsZero()
				q.mu.Unlock()
				if err != nil && !lost {
					c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				}
			})
		}
		hanging := 0
		for _, q := range pp {
			q := q
			d := time.Duration(r.Intn(int(length/time.Millisecond))) * time.Millisecond
			reset := r.Intn(2) == 0
			switch r.Intn(8) {
			case 0: // goes by itself
				c.Count("peers that went", 1)
				c.Go(func() {
					time.Sleep(d)
					if q.p.C.IsClosed() {
						return
					}
					q.mu.Lock()
					q.gone = time.Now()
					q.mu.Unlock()
					if reset {
						q.p.Reset()
					} else {
						q.p.EOF()
					}
				})
			case 1: // cannot be written to anymore
				c.Count("peers that cannot be written to", 1)
				c.Go(func() {
					time.Sleep(d)
					q.mu.Lock()
					q.cut = time.Now()
					q.mu.Unlock()
					q.p.C.FailWrites(func(int, []byte) error { return errors.New("broken pipe") })
				})
			case 2: // does not read anymore, and does not say so
				if !hang || hanging == 2 {
					break
				}
				hanging++
				c.Count("peers that do not read", 1)
				c.Go(func() {
					time.Sleep(d)
					q.mu.Lock()
					q.hung = time.Now()
					q.mu.Unlock()
					q.p.C.Stall()
				})
			}
		}
		if r.Intn(2) == 0 { // some life
			for i := 0; i < 4; i++ {
				time.Sleep(time.Duration(r.Intn(60000)) * time.Millisecond)
				var l []*hx.Peer
				for _, q := range pp {
					l = append(l, q.p)
				}
				announce(c, f, w, l)
			}
		}
		time.Sleep(length - time.Since(begin))
		c.Settle(0)
		end := time.Now()
		sig := ""
		seen := map[string]bool{}
		for _, q := range pp {
			s, ok := q.judge(c, end, seen)
			if !ok {
				return
			}
			sig += s + ";"
		}
		c.Sig("%v peers=%d %s", length, np, sig)
		c.Sample(map[string]interface{}{"minutes": length.Minutes(), "peers": sig})
	})
}

const second = time.Second

func (q *pingPeer) judge(c *hx.Case, end time.Time, seen map[string]bool) (string, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	name := q.p.Name
	closed := q.p.C.IsClosed()
	at := q.p.C.ClosedAt()
	rel := func(t time.Time) string { return fmt.Sprintf("%.3fs", t.Sub(q.ready).Seconds()) }
	if q.ready.IsZero() {
		if !q.gone.IsZero() || !q.cut.IsZero() || !q.hung.IsZero() {
			return "never ready", true
		}
		c.Violate("no handshake", "the handshake with %s is not completed", name)
		return "", false
	}
	// when it has to be closed
	due := time.Time{}
	why := ""
	if !q.gone.IsZero() {
		due, why = q.gone, "it went"
		if due.Before(q.ready) {
			due = q.ready
		}
	}
	last := q.ready
	for _, pg := range q.pings {
		if seen[pg.nonce] {
			c.Violate("nonce used twice", "two pings have the nonce %x", pg.nonce)
			return "", false
		}
		seen[pg.nonce] = true
		c.Count("pings", 1)
		if !due.IsZero() && pg.at.After(due.Add(second)) {
			c.Violate("dropped peer is pinged", "%s is pinged at %s, it had to be dropped at %s (%s)", name, rel(pg.at), rel(due), why)
			return "", false
		}
		if d := pg.at.Sub(last); d < 118*second || d > 125*second {
			c.Violate("wrong ping interval", "%s is pinged at %s, %v after the ping (or the handshake) before", name, rel(pg.at), d)
			return "", false
		}
		last = pg.at
		ok := false
		for _, pn := range q.pongs {
			ok = ok || pn.nonce == pg.nonce && !pn.at.Before(pg.at) && pn.at.Sub(pg.at) < 60*second
		}
		if t := pg.at.Add(60 * second); !ok && (due.IsZero() || t.Before(due)) {
			due, why = t, fmt.Sprintf("the ping at %s is not answered in time", rel(pg.at))
		}
	}
	// a ping that could not be written
	next := last.Add(120 * second)
	if d := next.Sub(q.cut); !q.cut.IsZero() && d > -5*time.Millisecond && d < 5*time.Millisecond {
		return "cut with the ping", true // either may come first
	}
	if !q.cut.IsZero() && next.After(q.cut) && (due.IsZero() || due.After(next)) {
		due, why = next, "the ping cannot be written"
	}
	slack := 1500 * time.Millisecond
	if !q.hung.IsZero() {
		// whatever is written first fails, at the latest the next ping
		limit := next.Add(60 * second)
		if !due.IsZero() && due.Before(limit) {
			limit = due
		}
		switch {
		case closed && at.Before(q.hung) && (due.IsZero() || at.Before(due.Add(-slack))):
			c.Violate("peer dropped too early", "%s was dropped at %s, before it stopped reading at %s", name, rel(at), rel(q.hung))
			return "", false
		case limit.Add(slack).Before(end) && (!closed || at.After(limit.Add(slack))):
			c.Violate("hung peer not dropped", "%s does not read anymore since %s, was pinged %d times, the last time at %s, and is still connected at %s", name, rel(q.hung), len(q.pings), rel(last), rel(limit.Add(slack)))
			return "", false
		}
		if closed {
			c.Count("peers dropped that do not read", 1)
		}
		return "hung", true
	}
	if due.IsZero() || due.Add(slack).After(end) {
		if closed && (due.IsZero() || at.Before(due.Add(-slack))) {
			was := func(t time.Time) string {
				if t.IsZero() {
					return "never"
				}
				return rel(t)
			}
			c.Violate("peer dropped that answered", "%s was dropped at %s, it answered all of %d pings in time (it went: %s, cannot be written to: %s, the case ends: %s)", name, rel(at), len(q.pings), was(q.gone), was(q.cut), rel(end))
			return "", false
		}
		if due.IsZero() && end.Sub(last) > 125*second {
			c.Violate("no ping", "%s was pinged %d times, the last time %v before the end", name, len(q.pings), end.Sub(last))
			return "", false
		}
		c.Count("peers kept to the end", 1)
		return fmt.Sprintf("kept %d/%d", len(q.pings), len(q.pongs)), true
	}
	if !closed {
		c.Violate("peer not dropped", "%s is still connected at %s, it had to be dropped at %s: %s", name, rel(end), rel(due), why)
		return "", false
	}
	if at.Before(due.Add(-slack)) {
		c.Violate("peer dropped too early", "%s was dropped at %s, due at %s: %s", name, rel(at), rel(due), why)
		return "", false
	}
	if at.After(due.Add(slack)) {
		c.Violate("peer dropped too late", "%s was dropped at %s, due at %s: %s", name, rel(at), rel(due), why)
		return "", false
	}
	if why != "it went" {
		c.Count("peers dropped in time", 1)
	}
	return fmt.Sprintf("dropped %s %d/%d", rel(at), len(q.pings), len(q.pongs)), true
}
