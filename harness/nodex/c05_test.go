package nodex

import (
	"encoding/hex"
	"fmt"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func hexOf(t *hx.Tx) string { return hex.EncodeToString(t.Bytes()) }

func TestC05(t *testing.T) {
	hx.Main(t, "C05", "Each case is a conversation of intact messages (orders and contents drawn at random), or a set of peers with different services, or a long idle connection in virtual time. Every message the node sends is matched with the message or the user's call it answers. Distinct by the messages.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("replies checked", "peers without compact filters", "handshakes", "idle pings", "transactions of the user")
		r.Cases("talk", r.N(1500, 40000), caseTalk)
		r.Cases("services", r.N(400, 8000), caseServices)
		r.Cases("idle", r.N(150, 3000), caseIdle)
	})
}

func caseTalk(c *hx.Case) {
	c.Bubble(func() {
		s := newScript(c, pick(c.Rand, 0, 1, 3, 20), 40)
		if !s.connect() {
			return
		}
		// answers are due before the handshake is over as well
		if c.Rand.Intn(2) == 0 {
			var l []*item
			for i := 0; i < 1+c.Rand.Intn(3); i++ {
				l = append(l, s.intact(pick(c.Rand, 0, 1, 8)))
			}
			s.feed(l, nil, nil)
			if !s.look("before the handshake") {
				return
			}
		}
		s.subscribe()
		s.handshake(nil)
		if !s.look("after the handshake") {
			return
		}
		c.Count("handshakes", 1)
		gh := s.p.Sent("getheaders")
		if len(gh) != 1 {
			c.Violate("no getheaders", "%d requests for headers after the handshake with the first peer", len(gh))
			return
		}
		g, err := hx.ParseGetHeaders(gh[0].Payload)
		want := s.ch.Blks[s.tip].Hash
		if err != nil || len(g.Locator) == 0 || g.Locator[0] != want {
			c.Violate("wrong locator", "the request after the handshake starts from %v instead of %s (%v)", g.Locator, want, err)
			return
		}
		mix := func() *item { return s.intact(c.Rand.Intn(9)) }
		if !s.run(8, mix, nil, nil, "in a conversation") {
			return
		}
		// a second version is answered or not, but the node sends none again
		c.Sig("%s", s.sig())
		c.Sample(s.kinds)
		s.counts()
	})
}

// caseServices: who is taken on, and what is sent to whom.
func caseServices(c *hx.Case) {
	c.Bubble(func() {
		f := NewFix(c, nets[c.Rand.Intn(3)])
		w := &World{Ch: hx.NewChain(c.Rand, f.Net, 3)}
		var ps []*hx.Peer
		var cf []bool
		n := 2 + c.Rand.Intn(4)
		for i := 0; i < n; i++ {
			h := f.Honest(w)
			ok := i == 0 || c.Rand.Intn(2) == 0
			h.Services = []uint64{1, 9, 0, 1<<10 | 1, 1<<24 | 1037, 32, 128, 1<<63 | 1}[c.Rand.Intn(8)] &^ cfService
			if ok {
				h.Services |= cfService
				if c.Rand.Intn(3) == 0 {
					h.Services = cfService
				}
				if c.Rand.Intn(4) == 0 {
					h.Services = 1<<64 - 1
				}
			} else {
				c.Count("peers without compact filters", 1)
			}
			h.VerFirst = c.Rand.Intn(2) == 0
			cf = append(cf, ok)
			ps = append(ps, h.Peer(fmt.Sprint(i)))
		}
		first := 0
		f.Start(ps[first])
		time.Sleep(2 * time.Second)
		for i, p := range ps {
			if i == first {
				continue
			}
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				return
			}
			time.Sleep(time.Duration(c.Rand.Intn(200)) * time.Millisecond)
		}
		c.Settle(5 * time.Second)
		tx := hx.RandTx(c.Rand, [][]byte{hx.P2WPKH(c.Rand)}, c.Rand.Intn(2) == 0)
		if err := f.N.SendTransaction(hexOf(tx)); err != nil {
			c.Violate("send fails", "SendTransaction: %v", err)
			return
		}
		c.Count("transactions of the user", 1)
		c.Settle(130 * time.Second)
		for i, p := range ps {
			var l []string
			for _, m := range p.Sent() {
				if err := m.Check(f.M); err != nil {
					c.Violate("malformed message", "%v", err)
					return
				}
				switch m.Cmd {
				case "getheaders", "getcfilters":
					if !cf[i] {
						c.Violate("peer without compact filters used", "peer %d offers no compact filters and is sent %s", i, m.Cmd)
						return
					}
				case "version":
					if !checkVersion(c, f, m) {
						return
					}
					l = append(l, m.Cmd)
				default:
					l = append(l, m.Cmd)
				}
			}
			want := "[version]"
			if cf[i] {
				want = "[version verack sendheaders tx ping]"
			}
			if fmt.Sprint(l) != want {
				c.Violate("wrong handshake", "peer %d (compact filters %v) is sent %v instead of %s", i, cf[i], l, want)
				return
			}
			c.Count("handshakes", 1)
			c.Sig("%v", cf[i])
		}
		c.Sig("%d", c.Idx)
	})
}

// caseIdle: nothing but a ping now and then is sent on an idle connection.
func caseIdle(c *hx.Case) {
	c.Bubble(func() {
		f := NewFix(c, nets[c.Rand.Intn(3)])
		w := &World{Ch: hx.NewChain(c.Rand, f.Net, 1+c.Rand.Intn(20))}
		n := 1 + c.Rand.Intn(3)
		var ps []*hx.Peer
		for i := 0; i < n; i++ {
			p := f.Honest(w).Peer(fmt.Sprint(i))
			ps = append(ps, p)
			if i == 0 {
				f.Start(p)
			} else if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				return
			}
		}
		c.Settle(20 * time.Second)
		var before []int
		for _, p := range ps {
			before = append(before, len(p.Sent()))
		}
		d := time.Duration(5+c.Rand.Intn(60)) * time.Minute
		c.Settle(d)
		for i, p := range ps {
			var last time.Time
			seen := map[string]bool{}
			k := 0
			for _, m := range p.Sent()[before[i]:] {
				if m.Cmd != "ping" {
					c.Violate("unsolicited "+m.Cmd, "the node sends %s to an idle peer", m.Cmd)
					return
				}
				if len(m.Payload) != 8 {
					c.Violate("malformed ping", "%x", m.Payload)
					return
				}
				seen[string(m.Payload)] = true
				if !last.IsZero() && m.At.Sub(last) < 100*time.Second {
					c.Violate("pings too often", "pings %v apart", m.At.Sub(last))
					return
				}
				last = m.At
				k++
			}
			if k < int(d/(2*time.Minute))-1 {
				c.Violate("no pings", "%d pings in %v", k, d)
				return
			}
			if len(seen) < k {
				c.Violate("ping nonce repeated", "%d different nonces in %d pings", len(seen), k)
				return
			}
			c.Count("idle pings", k)
			if p.C.IsClosed() {
				c.Violate("connection closed", "an idle connection was closed")
				return
			}
		}
		c.Sig("%d %v", n, d)
	})
}
