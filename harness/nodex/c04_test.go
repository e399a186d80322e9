package nodex

import (
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC04(t *testing.T) {
	hx.Main(t, "C04", "Each case is a conversation in which effective messages of every kind are made corrupt (checksum or payload off by a bit, other checksums, the magic of another network), mixed with intact ones. The replies, header and filter store, mem-pool and its subscriber are compared with those of the intact messages alone. Distinct by the messages.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("replies checked", "headers stored", "mem-pool events", "messages corrupt", "unknown magics", "corrupt pongs", "corrupt versions")
		r.Cases("mixed", r.N(1500, 40000), func(c *hx.Case) { caseCorrupt(c) })
		r.Cases("version", r.N(300, 6000), caseCorruptVersion)
		r.Cases("magic", r.N(200, 4000), caseMagic)
		r.Cases("pong", r.N(200, 4000), caseCorruptPong)
	})
}

func caseCorrupt(c *hx.Case) {
	c.Bubble(func() {
		s := newScript(c, pick(c.Rand, 0, 1, 3, 20), 40)
		if !s.connect() {
			return
		}
		s.subscribe()
		s.handshake(nil)
		if !s.look("after the handshake") {
			return
		}
		mix := func() *item {
			if it := s.next; it != nil && s.nextAt == s.versionOfState && c.Rand.Intn(3) == 0 {
				s.next = nil
				return it
			}
			if c.Rand.Intn(2) == 0 {
				return s.corrupt()
			}
			return s.intact(c.Rand.Intn(8))
		}
		_, cut := s.cutter(7)
		if c.Rand.Intn(4) == 0 {
			_, cut = s.cutter(c.Rand.Intn(7))
		}
		if !s.run(8, mix, cut, nil, "with corrupt messages") {
			return
		}
		s.last(nil)
		c.Sig("%s", s.sig())
		c.Sample(s.kinds)
		s.counts()
	})
}

// caseCorruptVersion: a corrupt version is none.
func caseCorruptVersion(c *hx.Case) {
	c.Bubble(func() {
		s := newScript(c, pick(c.Rand, 0, 5), 10)
		if !s.connect() {
			return
		}
		p := s.version(cfService | 1)
		var cmd [12]byte
		copy(cmd[:], "version")
		for i := 1 + c.Rand.Intn(3); i > 0; i-- {
			m, sum := s.f.M, hx.Checksum(p)
			if c.Rand.Intn(2) == 0 {
				sum[c.Rand.Intn(4)] ^= 1 << c.Rand.Intn(8)
			} else {
				for m == s.f.M {
					m = hx.Magics[nets[c.Rand.Intn(3)]]
				}
			}
			s.feed([]*item{{name: "corrupt version", wire: hx.RawFrame(m, cmd, uint32(len(p)), sum, p)}}, nil, nil)
			c.Count("corrupt versions", 1)
		}
		// nothing is answered, and no filter or header is asked for
		if !s.look("after a corrupt version") {
			return
		}
		if n := len(s.p.Sent()); n != 1 {
			c.Violate("corrupt version acted upon", "the node has sent %d messages after a corrupt version", n)
			return
		}
		tx := hx.RandTx(c.Rand, [][]byte{hx.P2WPKH(c.Rand)}, false)
		if err := s.f.N.SendTransaction(hexOf(tx)); err == nil && len(s.p.Sent("tx")) > 0 {
			c.Violate("corrupt version acted upon", "a peer with a corrupt version was taken on")
			return
		}
		s.handshake(nil)
		if !s.look("after the handshake") {
			return
		}
		s.last(nil)
		c.Sig("%s %d", s.sig(), c.Idx)
		s.counts()
	})
}

// caseMagic: what comes after the magic of no known network may be lost, but
// none of it has an effect.
func caseMagic(c *hx.Case) {
	c.Bubble(func() {
		s := newScript(c, pick(c.Rand, 1, 5), 10)
		if !s.connect() {
			return
		}
		s.subscribe()
		s.handshake(nil)
		if !s.look("after the handshake") {
			return
		}
		it := s.intact(pick(c.Rand, 0, 1, 2, 4, 5, 6, 7))
		var m hx.Magic
		for known := true; known; {
			hx.Fill(c.Rand, m[:])
			if c.Rand.Intn(3) == 0 { // nearly the right one
				m = s.f.M
				m[c.Rand.Intn(4)] ^= 1 << c.Rand.Intn(8)
			}
			known = m == hx.Liquid || m == hx.Regtest || m == hx.Testnet
		}
		s.feed([]*item{{name: "unknown magic " + it.name, wire: hx.Frame(m, it.cmd, it.pay)}}, nil, nil)
		c.Count("unknown magics", 1)
		s.look("after a message of an unknown network")
		c.Sig("%s %x", s.sig(), m)
		s.counts()
	})
}

// caseCorruptPong: a corrupt pong answers no ping.
func caseCorruptPong(c *hx.Case) {
	c.Bubble(func() {
		f := NewFix(c, nets[c.Rand.Intn(3)])
		w := &World{Ch: hx.NewChain(c.Rand, f.Net, 3)}
		h := f.Honest(w)
		from := 1 + c.Rand.Intn(3) // the ping from which on pongs are corrupt
		kind := c.Rand.Intn(3)
		n := 0
		var bad time.Time
		h.Gate = func(p *hx.Peer, m hx.Sent) bool {
			if m.Cmd != "ping" {
				return false
			}
			n++
			if n < from {
				return false
			}
			if n == from {
				bad = time.Now()
			}
			var cmd [12]byte
			copy(cmd[:], "pong")
			mg, sum := f.M, hx.Checksum(m.Payload)
			pay := append([]byte(nil), m.Payload...)
			switch kind {
			case 0:
				sum[c.Rand.Intn(4)] ^= 1 << c.Rand.Intn(8)
			case 1:
				for mg == f.M {
					mg = hx.Magics[nets[c.Rand.Intn(3)]]
				}
			default: // the checksum was right for other bytes
				sum = hx.Checksum(append(pay, 0))
			}
			p.Send(hx.RawFrame(mg, cmd, 8, sum, pay))
			c.Count("corrupt pongs", 1)
			return true
		}
		p := h.Peer("A")
		f.Start(p)
		wait(time.Duration(from)*2*time.Minute+90*time.Second, func() bool { return p.C.IsClosed() })
		if bad.IsZero() {
			c.Errorf("no ping was sent")
			return
		}
		if !p.C.IsClosed() {
			c.Violate("corrupt pong taken", "a peer that answers pings with corrupt pongs only is still connected %v after the first", time.Since(bad))
			return
		}
		c.Sig("%d %d", from, kind)
	})
}
