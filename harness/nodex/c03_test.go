package nodex

import (
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func sortStrings(l []string) { sort.Strings(l) }

func (s *script) chunk(mix func() *item) []*item {
	r := s.c.Rand
	var l []*item
	n := 1 + r.Intn(6)
	at := r.Intn(n)
	for i := 0; i < n; i++ {
		it := mix()
		for it.state && i != at {
			it = mix()
		}
		l = append(l, it)
	}
	return l
}

// stateless items between those that look at the stores: what the node does
// with one of those is over before the next one
func (s *script) run(rounds int, mix func() *item, cut func(b []byte) [][]byte, pause func() time.Duration, when string) bool {
	for i := 0; i < rounds && !s.c.Failed(); i++ {
		s.feed(s.chunk(mix), cut, pause)
		if !s.look(when) {
			return false
		}
	}
	return true
}

func TestC03(t *testing.T) {
	hx.Main(t, "C03", "Each case is a conversation of a peer with a node: intact messages of every kind the node knows mixed with unusable ones, the whole stream cut into segments (single bytes, random sizes, at message boundaries and next to them, everything at once, with pauses). The replies, stores and mem-pool are compared with what the messages mean. Distinct by the messages and the cutting.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("replies checked", "headers stored", "mem-pool events", "messages truncated", "messages unknown command", "segments", "messages of one kind in a row")
		r.Cases("cut", r.N(1200, 40000), func(c *hx.Case) { caseCut(c, 3) })
		r.Cases("unusable", r.N(1200, 40000), func(c *hx.Case) { caseCut(c, 1) })
		r.Cases("handshake", r.N(400, 8000), caseCutHandshake)
		r.Cases("long", r.N(6, 60), caseLong)
		r.Cases("hundreds", r.N(36, 600), caseHundreds)
	})
}

func (s *script) cutter(k int) (string, func(b []byte) [][]byte) {
	c := s.c
	segs := 0
	count := func(f func(b []byte) [][]byte) func(b []byte) [][]byte {
		return func(b []byte) [][]byte {
			l := f(b)
			segs += len(l)
			c.Count("segments", len(l))
			return l
		}
	}
	at := func(off int) func(b []byte) [][]byte { // message boundaries moved by off
		return func(b []byte) [][]byte {
			var l [][]byte
			start, pos := 0, 0
			for pos+24 <= len(b) {
				n := int(b[pos+16]) | int(b[pos+17])<<8 | int(b[pos+18])<<16 | int(b[pos+19])<<24
				for _, e := range []int{pos + 24 + off, pos + 24 + n + off} {
					if e > start && e < len(b) {
						l = append(l, b[start:e])
						start = e
					}
				}
				pos += 24 + n
			}
			return append(l, b[start:])
		}
	}
	switch k {
	case 0:
		return "bytes", count(func(b []byte) [][]byte {
			if len(b) > 6000 {
				return append(hx.CutOne(b[:6000]), b[6000:])
			}
			return hx.CutOne(b)
		})
	case 1:
		return "few", count(c.CutAt(3))
	case 2:
		return "some", count(c.CutAt(40))
	case 3:
		return "large", count(c.CutAt(1000))
	case 4:
		return "boundaries", count(at(0))
	case 5:
		return "after boundaries", count(at(1 + c.Rand.Intn(23)))
	case 6:
		return "before boundaries", count(at(-1 - c.Rand.Intn(23)))
	}
	return "whole", count(func(b []byte) [][]byte { return [][]byte{b} })
}

func (s *script) pauser() func() time.Duration {
	r := newLocked(s.c.Rand)
	switch s.c.Rand.Intn(3) {
	case 0:
		return nil
	case 1:
		return func() time.Duration { return time.Duration(r.Intn(2)) * time.Microsecond }
	}
	left := 20 * time.Second // less than until the node's first ping
	return func() time.Duration {
		if r.Intn(50) == 0 {
			d := time.Duration(r.Intn(400)) * time.Millisecond
			if left -= d; left > 0 {
				return d
			}
		}
		return 0
	}
}

func caseCut(c *hx.Case, intactParts int) {
	c.Bubble(func() {
		s := newScript(c, pick(c.Rand, 0, 1, 3, 20), 40)
		if !s.connect() {
			return
		}
		s.subscribe()
		name, cut := s.cutter(c.Idx % 8)
		pause := s.pauser()
		s.handshake(cut)
		if !s.look("after the handshake") {
			return
		}
		mix := func() *item {
			if c.Rand.Intn(intactParts+1) == 0 {
				return s.unusable()
			}
			return s.intact(c.Rand.Intn(9))
		}
		if !s.run(6, mix, cut, pause, "cut into "+name) {
			return
		}
		s.last(cut)
		c.Sig("%s %s", name, s.sig())
		c.Sample(map[string]interface{}{"cut": name, "messages": s.kinds})
		s.counts()
	})
}

func (s *script) handshake(cut func(b []byte) [][]byte) {
	v := &item{name: "version", cmd: "version", pay: s.version(cfService | 1), apply: func() {
		s.replies = append(s.replies, "verack", "sendheaders")
		s.calls++
	}}
	ack := &item{name: "verack", cmd: "verack"}
	if s.c.Rand.Intn(2) == 0 {
		s.feed([]*item{v, ack}, cut, nil)
	} else {
		s.feed([]*item{ack, v}, cut, nil)
	}
}

// last makes sure the connection still works.
func (s *script) last(cut func(b []byte) [][]byte) bool {
	s.feed([]*item{s.intact(0), s.intact(1)}, cut, nil)
	return s.look("at the end")
}

// caseCutHandshake: unusable and cut messages before and around the handshake.
func caseCutHandshake(c *hx.Case) {
	c.Bubble(func() {
		s := newScript(c, pick(c.Rand, 1, 5), 10)
		if !s.connect() {
			return
		}
		name, cut := s.cutter(c.Idx % 8)
		stateless := func() *item {
			for {
				it := s.unusable()
				if c.Rand.Intn(3) == 0 {
					it = &item{name: "truncated version", cmd: "version", pay: s.version(cfService)[:c.Rand.Intn(80)]}
				}
				if !it.state {
					return it
				}
			}
		}
		for i := c.Rand.Intn(4); i > 0; i-- {
			s.feed([]*item{stateless()}, cut, nil)
		}
		if !s.look("before the handshake") {
			return
		}
		s.handshake(cut)
		if !s.look("after the handshake") {
			return
		}
		s.last(cut)
		c.Sig("%s %s", name, s.sig())
		s.counts()
	})
}

// caseLong: payloads up to and beyond what the node takes.
func caseLong(c *hx.Case) {
	c.Bubble(func() {
		s := newScript(c, 2, 10)
		if !s.connect() {
			return
		}
		s.handshake(nil)
		if !s.look("after the handshake") {
			return
		}
		sizes := []int{1 << 20, 4 << 20, 32 << 20, 32<<20 + 1, 33 << 20}
		n := sizes[c.Idx%len(sizes)]
		cmd := []string{"inv", "block", "tx", "headers", "addr", "ping"}[c.Rand.Intn(6)]
		pay := make([]byte, n)
		if cmd == "ping" {
			cmd = "cfilter"
		}
		if cmd == "inv" || cmd == "headers" || cmd == "block" { // more is announced than is there
			pay = append([]byte{0xfe, 0xff, 0xff, 0xff, 0x7f}, pay[5:]...)
		}
		if cmd == "block" {
			pay = pay[:n]
			for i := range pay {
				pay[i] = 0xff
			}
		}
		s.feed([]*item{s.intact(0), {name: "long " + cmd, cmd: cmd, pay: pay}, s.intact(0)}, c.CutAt(100000), nil)
		if !s.look("after a long message") {
			return
		}
		c.Sig("%d %s", n, cmd)
		s.counts()
	})
}

// caseHundreds: hundreds of messages of one kind that mean nothing.
func caseHundreds(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		s := newScript(c, pick(r, 0, 3), 10)
		if !s.connect() {
			return
		}
		s.handshake(nil)
		if !s.look("after the handshake") {
			return
		}
		cmd := others[c.Idx/2%len(others)]
		n := pick(r, 120, 300, 1100)
		var one func() *item
		if c.Idx%2 == 0 {
			one = func() *item {
				return &item{name: "unsupported", cmd: cmd, pay: hx.RandBytes(r, pick(r, 0, 1, 40, 200))}
			}
		} else {
			cmd = []string{"corrupt", "truncated", "pong", "verack", "unknown", "other network"}[c.Idx/2%6]
			one = func() *item {
				for {
					var it *item
					switch cmd {
					case "corrupt", "other network":
						if it = s.corrupt(); strings.HasSuffix(it.name, "other network") != (cmd == "other network") {
							continue
						}
						it.state = false
						return it
					case "pong", "verack":
						if it = s.intact(8); it.name != cmd {
							continue
						}
						return it
					default:
						if it = s.unusable(); !strings.HasPrefix(it.name, cmd) {
							continue
						}
						return it
					}
				}
			}
		}
		for n > 0 && !c.Failed() {
			var l []*item
			for i := 0; i < 60; i++ {
				l = append(l, one())
			}
			n -= 60
			c.Count("messages of one kind in a row", 60)
			s.feed(append(l, s.intact(0)), nil, nil)
			if !s.look("after hundreds of messages") {
				return
			}
		}
		s.last(nil)
		c.Sig("%s %d", cmd, c.Idx)
		s.counts()
	})
}
