package repox

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/btcsuite/btcd/blockchain"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC14(t *testing.T) {
	hx.Main(t, "C14", "Race detector build. Sequences: random histories of writes (batches in any order, repeated, empty, with gaps, with odd links) and of all reads, on the in-memory store and on the database store (lib/pq against an emulated server with the tables of the migrations), every result against a reference map. Concurrent: histories of several clients, checked for linearizability by porcupine. Distinct by store, start height, headers and operations.", func(r *hx.Run) {
		r.Require("writes", "headers read", "not found by hash", "not found by height", "tips", "empty stores", "locators", "locators of long chains", "complete ancestors", "incomplete ancestors", "headers written again", "concurrent operations", "linearizable histories", "headers of the longest chains", "database statements")
		r.Cases("sequence", r.N(500, 30000), caseSeq)
		r.Cases("long chain", r.N(24, 500), caseLong)
		r.Cases("concurrent", r.N(500, 30000), caseConc)
	})
}

// audit compares one read of a store to the model.
func (s *store) read(c *hx.Case, m *model, op int, h *hdr) {
	bad := func(what, format string, a ...interface{}) {
		c.Violate(s.name+": "+what, "%s store, %d headers stored: %s", s.name, len(m.stored), fmt.Sprintf(format, a...))
	}
	switch op {
	case 0:
		got, err := s.H.GetBlockHeader(ctx, *hx.CH(h.hash))
		if m.stored[h.hash] == nil {
			c.Count("not found by hash", 1)
			if !errors.Is(err, repository.ErrBlockNotFound) {
				bad("unknown hash", "GetBlockHeader of height %d, not stored: %v, %v", h.h.Height, got, err)
			}
			return
		}
		c.Count("headers read", 1)
		if err == nil {
			err = same(got, h)
		}
		if err != nil {
			bad("header by hash", "GetBlockHeader of height %d: %v", h.h.Height, err)
		}
	case 1:
		got, err := s.H.GetBlockHashByHeight(ctx, h.h.Height)
		if m.stored[h.hash] == nil {
			c.Count("not found by height", 1)
			if !errors.Is(err, repository.ErrBlockNotFound) {
				bad("unknown height", "GetBlockHashByHeight(%d), not stored: %v, %v", h.h.Height, got, err)
			}
			return
		}
		if err != nil || got == nil || hx.Hash(*got) != h.hash {
			bad("hash by height", "GetBlockHashByHeight(%d): %v, %v instead of %v", h.h.Height, got, err, h.hash)
		}
	case 2:
		got, err := s.H.ChainTip(ctx)
		t := m.tip()
		if t == nil {
			c.Count("empty stores", 1)
			if !errors.Is(err, repository.ErrNoBlocksHeaders) {
				bad("tip of an empty store", "ChainTip: %v, %v", got, err)
			}
			return
		}
		c.Count("tips", 1)
		if err == nil {
			err = same(got, t)
		}
		if err != nil {
			bad("tip", "ChainTip: %v; highest stored %d", err, t.h.Height)
		}
	case 3:
		got, err := s.H.HasAllAncestors(ctx, *hx.CH(h.hash))
		if m.stored[h.hash] == nil {
			if !errors.Is(err, repository.ErrBlockNotFound) && !(len(m.stored) == 0 && errors.Is(err, repository.ErrNoBlocksHeaders)) {
				bad("ancestors of an unknown block", "HasAllAncestors: %v, %v", got, err)
			}
			return
		}
		want := m.ancestors(h)
		if want {
			c.Count("complete ancestors", 1)
		} else {
			c.Count("incomplete ancestors", 1)
		}
		if err != nil || got != want {
			bad("ancestors", "HasAllAncestors of height %d: %v, %v instead of %v", h.h.Height, got, err, want)
		}
	case 4:
		got, err := s.H.LatestBlockLocator(ctx)
		t := m.tip()
		if t == nil {
			if !errors.Is(err, repository.ErrNoBlocksHeaders) {
				bad("locator of an empty store", "LatestBlockLocator: %v, %v", got, err)
			}
			return
		}
		if err != nil {
			if !m.hole() {
				bad("locator", "LatestBlockLocator: %v; complete up to height %d", err, t.h.Height)
			}
			return
		}
		c.Count("locators", 1)
		if len(m.stored) > 60 {
			c.Count("locators of long chains", 1)
		}
		if w := locator(got, m, t); w != "" {
			bad("locator", "%s: %v", w, heights(got, m))
		}
	}
}

func heights(l blockchain.BlockLocator, m *model) []interface{} {
	var out []interface{}
	for _, h := range l {
		if h == nil {
			out = append(out, nil)
		} else if x := m.stored[hx.Hash(*h)]; x != nil {
			out = append(out, x.h.Height)
		} else {
			out = append(out, h.String())
		}
	}
	return out
}

func locator(l blockchain.BlockLocator, m *model, tip *hdr) string {
	if len(l) == 0 || l[0] == nil || hx.Hash(*l[0]) != tip.hash {
		return "the locator does not start at the tip"
	}
	var hs []int
	for _, h := range l {
		if h == nil {
			return "nil in the locator"
		}
		x := m.stored[hx.Hash(*h)]
		if x == nil {
			return "the locator has a block that is not stored"
		}
		hs = append(hs, int(x.h.Height))
	}
	step := 0
	for i := 1; i < len(hs); i++ {
		d := hs[i-1] - hs[i]
		if i == 1 && d == 0 {
			continue // the tip twice
		}
		if d <= 0 {
			return "the locator does not go back"
		}
		if d < step && !(i == len(hs)-1 && hs[i] <= 1) {
			return "the steps of the locator do not grow"
		}
		step = d
	}
	n, last := hs[0], hs[len(hs)-1]
	if last > 1 && last > n-last+3 {
		return "the locator ends too early"
	}
	lg := 0
	for x := n; x > 0; x >>= 1 {
		lg++
	}
	if len(hs) > 16+2*lg {
		return "the locator is too long for its chain"
	}
	return ""
}

// write stores a batch; what the caller does to its slice afterwards must not
// matter.
func (s *store) write(c *hx.Case, batch []*hdr) error {
	var l []block.Header
	for _, h := range batch {
		l = append(l, h.val())
	}
	err := s.H.WriteHeaders(ctx, l...)
	for i := range l {
		l[i] = block.Header{}
	}
	c.Count("writes", 1)
	return err
}

func pickBatch(r *rand.Rand, all []*hdr, stored func(*hdr) bool) []*hdr {
	var b []*hdr
	switch r.Intn(8) {
	case 0: // nothing
	case 1, 2, 3: // a run that continues what is stored
		i := 0
		for i < len(all) && stored(all[i]) {
			i++
		}
		for n := 1 + r.Intn(8); n > 0 && i < len(all); n-- {
			b = append(b, all[i])
			i++
		}
	case 4: // a run from anywhere
		i := r.Intn(len(all))
		for n := 1 + r.Intn(8); n > 0 && i < len(all); n-- {
			b = append(b, all[i])
			i++
		}
	default:
		for n := 1 + r.Intn(6); n > 0; n-- {
			b = append(b, all[r.Intn(len(all))])
		}
	}
	if r.Intn(4) == 0 {
		r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
	}
	return b
}

func start(r *rand.Rand) uint32 {
	return []uint32{0, 0, 1, 1, 2, 3, 100, 1700000, 1<<31 - 100, 1<<8 - 5, 1<<15 - 5, 1<<16 - 5, 1<<24 - 5}[r.Intn(13)]
}

func caseSeq(c *hx.Case) {
	r := c.Rand
	h0 := start(r)
	all := chain(r, h0, 2+r.Intn(24), r.Intn(2) == 0)
	ss := []*store{memStore(), pgStore(c)}
	m := newModel(all)
	ops := 10 + r.Intn(50)
	c.Sig("%d %d %d", h0, len(all), ops)
	for i := 0; i < ops; i++ {
		if r.Intn(4) == 0 {
			b := pickBatch(r, all, func(h *hdr) bool { return m.stored[h.hash] != nil })
			for _, s := range ss {
				if err := s.write(c, b); err != nil {
					c.Violate(s.name+": write refused", "WriteHeaders of %d headers: %v", len(b), err)
					return
				}
			}
			for _, h := range b {
				if m.stored[h.hash] != nil {
					c.Count("headers written again", 1)
				}
				m.add(h)
			}
			c.Log("write %d headers, %d stored", len(b), len(m.stored))
		} else {
			op := r.Intn(5)
			h := all[r.Intn(len(all))]
			for _, s := range ss {
				s.read(c, m, op, h)
			}
			c.Log("read %d of height %d", op, h.h.Height)
		}
		if c.Failed() {
			return
		}
	}
	all5(c, ss, m)
	c.Count("database statements", sum(ss[1].pg.Statements()))
	ss[1].quiet(c, "the sequence")
}

func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return n
}

func all5(c *hx.Case, ss []*store, m *model) {
	for _, s := range ss {
		for _, h := range m.all {
			for op := 0; op < 2; op++ {
				s.read(c, m, op, h)
			}
			s.read(c, m, 3, h)
		}
		s.read(c, m, 2, nil)
		s.read(c, m, 4, nil)
	}
}

func caseLong(c *hx.Case) {
	r := c.Rand
	size, most := 60+r.Intn(700), 400
	ss := []*store{memStore(), pgStore(c)}
	switch c.Idx % 12 { // as long as a chain gets in a year, and in years
	case 5:
		size, most = 3000+r.Intn(3000), 2000
	case 11:
		size, most = 66000+r.Intn(5000), 16000
		ss = ss[:1]
		c.Count("headers of the longest chains", size)
	}
	all := chain(r, uint32(r.Intn(2)), size, false)
	m := newModel(all)
	c.Sig("%d", len(all))
	for i := 0; i < len(all); {
		n := 1 + r.Intn(most)
		if n > len(all)-i {
			n = len(all) - i
		}
		for _, s := range ss {
			if err := s.write(c, all[i:i+n]); err != nil {
				c.Violate(s.name+": write refused", "WriteHeaders of %d headers: %v", n, err)
				return
			}
		}
		for _, h := range all[i : i+n] {
			m.add(h)
		}
		i += n
		for _, s := range ss {
			s.read(c, m, 2, nil)
			s.read(c, m, 4, nil)
			s.read(c, m, 3, all[r.Intn(len(all))])
			s.read(c, m, 1, all[r.Intn(len(all))])
			s.read(c, m, 0, all[r.Intn(len(all))])
		}
	}
}

// ---- concurrent histories

type cop struct {
	kind  int // 0 get, 1 by height, 2 tip, 3 ancestors, 5 write
	h     int
	batch uint64
}

type cres struct {
	found bool // or the answer about ancestors
	miss  bool // not found
	tip   int  // -1: empty
}

func linModel(all []*hdr) porcupine.Model {
	idx := map[hx.Hash]int{}
	for i, h := range all {
		idx[h.hash] = i
	}
	return porcupine.Model{
		Init: func() interface{} { return uint64(0) },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, o := st.(uint64), in.(cop)
			if o.kind == 5 {
				return true, s | o.batch
			}
			r := out.(cres)
			has := s&(1<<uint(o.h)) != 0
			switch o.kind {
			case 0, 1:
				return r.found == has && r.miss == !has, s
			case 2:
				t := -1
				for i := range all {
					if s&(1<<uint(i)) != 0 {
						t = i
					}
				}
				return r.tip == t, s
			case 3:
				if !has {
					return r.miss, s
				}
				ok := true
				for h := all[o.h]; h.h.Height > 1; {
					j, in := idx[h.h.Prev]
					if !in || s&(1<<uint(j)) == 0 {
						ok = false
						break
					}
					h = all[j]
				}
				return !r.miss && r.found == ok, s
			}
			return true, s
		},
	}
}

func caseConc(c *hx.Case) {
	r := c.Rand
	var s *store
	if r.Intn(2) == 0 {
		s = memStore()
	} else {
		s = pgStore(c)
	}
	all := chain(r, uint32(r.Intn(3)), 3+r.Intn(9), r.Intn(3) == 0)
	m := newModel(all)
	nc := 2 + r.Intn(4)
	type plan struct{ ops []cop }
	var plans []plan
	for i := 0; i < nc; i++ {
		var p plan
		for n := 4 + r.Intn(8); n > 0; n-- {
			o := cop{kind: r.Intn(5), h: r.Intn(len(all))}
			if r.Intn(3) == 0 {
				o.kind = 5
				for _, h := range pickBatch(r, all, func(*hdr) bool { return r.Intn(2) == 0 }) {
					o.batch |= 1 << uint(h.i)
				}
			}
			p.ops = append(p.ops, o)
		}
		plans = append(plans, p)
	}
	c.Sig("%s %d %d %d", s.name, len(all), nc, r.Int())
	base := time.Now()
	var mu sync.Mutex
	var hist []porcupine.Operation
	var wg sync.WaitGroup
	for i, p := range plans {
		i, p := i, p
		yield := r.Intn(3)
		wg.Add(1)
		c.Go(func() {
			defer wg.Done()
			for _, o := range p.ops {
				var res cres
				t0 := int64(time.Since(base))
				bad := func(what string, v ...interface{}) {
					c.Violate(s.name+": concurrent "+what, "%s store: %v", s.name, v)
				}
				switch o.kind {
				case 0:
					h, err := s.H.GetBlockHeader(ctx, *hx.CH(all[o.h].hash))
					res.found, res.miss = err == nil, errors.Is(err, repository.ErrBlockNotFound)
					if err != nil && !res.miss {
						bad("read fails", err)
					} else if err == nil && same(h, all[o.h]) != nil {
						bad("header", same(h, all[o.h]))
					}
				case 1:
					h, err := s.H.GetBlockHashByHeight(ctx, all[o.h].h.Height)
					res.found, res.miss = err == nil, errors.Is(err, repository.ErrBlockNotFound)
					if err != nil && !res.miss {
						bad("read fails", err)
					} else if err == nil && hx.Hash(*h) != all[o.h].hash {
						bad("hash", h)
					}
				case 2:
					h, err := s.H.ChainTip(ctx)
					res.tip = -1
					if err == nil {
						i := int(h.Height) - int(all[0].h.Height)
						if i < 0 || i >= len(all) || same(h, all[i]) != nil {
							bad("tip", h)
						}
						res.tip = i
					} else if !errors.Is(err, repository.ErrNoBlocksHeaders) {
						bad("read fails", err)
					}
				case 3:
					ok, err := s.H.HasAllAncestors(ctx, *hx.CH(all[o.h].hash))
					res.found = ok
					res.miss = errors.Is(err, repository.ErrBlockNotFound) || errors.Is(err, repository.ErrNoBlocksHeaders)
					if err != nil && !res.miss {
						bad("read fails", err)
					}
				case 4:
					l, err := s.H.LatestBlockLocator(ctx)
					if err == nil {
						known := newModel(all)
						for _, h := range all {
							known.add(h)
						}
						if len(l) == 0 || l[0] == nil || known.stored[hx.Hash(*l[0])] == nil {
							bad("locator", l)
						} else if w := locator(l, known, known.stored[hx.Hash(*l[0])]); w != "" {
							bad("locator", w, heights(l, known))
						}
					} else if !errors.Is(err, repository.ErrNoBlocksHeaders) && !errors.Is(err, repository.ErrBlockNotFound) {
						bad("read fails", err)
					}
				case 5:
					var b []*hdr
					for _, h := range all {
						if o.batch&(1<<uint(h.i)) != 0 {
							b = append(b, h)
						}
					}
					if err := s.write(c, b); err != nil {
						bad("write refused", err)
					}
				}
				t1 := int64(time.Since(base))
				mu.Lock()
				if o.kind != 4 {
					hist = append(hist, porcupine.Operation{ClientId: i, Input: o, Output: res, Call: t0, Return: t1})
				}
				mu.Unlock()
				for k := 0; k < yield; k++ {
					runtime.Gosched()
				}
			}
		})
	}
	wg.Wait()
	if c.Failed() {
		return
	}
	c.Count("concurrent operations", len(hist))
	switch porcupine.CheckOperationsTimeout(linModel(all), hist, 10*time.Second) {
	case porcupine.Ok:
		c.Count("linearizable histories", 1)
	case porcupine.Illegal:
		for _, o := range hist {
			c.Log("client %d [%d %d] %+v -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		c.Violate(s.name+": not linearizable", "the history of %d operations of %d clients is not linearizable", len(hist), nc)
		return
	default:
		c.Count("histories not decided in time", 1)
	}
	for _, p := range plans {
		for _, o := range p.ops {
			if o.kind == 5 {
				for _, h := range all {
					if o.batch&(1<<uint(h.i)) != 0 {
						m.add(h)
					}
				}
			}
		}
	}
	all5(c, []*store{s}, m)
	s.quiet(c, "the concurrent use")
}
