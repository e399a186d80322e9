package repox

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math/rand"
	"sync"
	"testing"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC15(t *testing.T) {
	hx.Main(t, "C15", "Race detector build. Sequences and concurrent histories of stores and reads of the filters of several blocks (hashes that are random, share all but a bit, lie in one buffer), of the same and of other content, on both stores; every result against a reference map and, for the filters, against matches computed from the scripts. Distinct by store, number of blocks and operations.", func(r *hx.Run) {
		r.Require("filters read", "filters not found", "filters stored", "filters stored again", "other content refused", "contents that are nearly the same", "matches compared", "concurrent operations", "contended keys", "database statements", "filters beyond 64 KiB")
		r.Cases("sequence", r.N(900, 30000), caseFilters)
		r.Cases("concurrent", r.N(500, 20000), caseFiltersConc)
		r.Cases("colliding keys", 6, caseCollide)
		r.Cases("size", r.N(48, 600), caseSize)
	})
}

// flt is the filter of a block.
type flt struct {
	hash    []byte
	scripts [][]byte
	b       []byte
	raw     bool // no filter at all
}

// nearly is other content of the same block.
func (f *flt) nearly(r *rand.Rand) *flt {
	g := &flt{hash: f.hash, raw: true, b: append([]byte(nil), f.b...)}
	switch k := r.Intn(5); {
	case k == 0 && len(g.b) > 1:
		g.b = g.b[:len(g.b)-1]
	case k == 1 && len(g.b) > 1:
		g.b = g.b[1:]
	case k == 2:
		g.b = append(g.b, 0)
	case k == 3 && len(g.b) > 0:
		g.b[len(g.b)-1] ^= 1
	case len(g.b) > 0:
		g.b[r.Intn(len(g.b))] ^= 1 << r.Intn(8)
	default:
		g.b = append(g.b, 0)
	}
	return g
}

func newFlt(r *rand.Rand, hash []byte) *flt {
	f := &flt{hash: hash}
	n := []int{0, 1, 1, 2, 5, 30}[r.Intn(6)]
	if r.Intn(300) == 0 {
		n = []int{252, 253, 2000}[r.Intn(3)]
	}
	for i := 0; i < n; i++ {
		f.scripts = append(f.scripts, hx.RandBytes(r, 1+r.Intn(40)))
	}
	var h hx.Hash
	copy(h[:], hash)
	f.b = hx.FilterOf(h, f.scripts)
	return f
}

func (f *flt) key() repository.FilterKey {
	return repository.FilterKey{BlockHash: f.hash, FilterType: repository.RegularFilter}
}

func (f *flt) put(r *rand.Rand, s *store) error {
	// as the node does, from a decoded filter, or directly
	var e *repository.FilterEntry
	if len(f.b) > 1 && !f.raw && r.Intn(2) == 0 {
		g, err := gcs.FromNBytes(builder.DefaultP, builder.DefaultM, f.b)
		if err != nil {
			panic(err)
		}
		if e, err = repository.NewFilterEntry(f.key(), g); err != nil {
			return err
		}
	} else {
		e = &repository.FilterEntry{Key: f.key(), NBytes: append([]byte(nil), f.b...)}
	}
	err := s.F.PutFilter(ctx, e)
	*e = repository.FilterEntry{}
	return err
}

// matches compares what a stored filter matches to its scripts.
func matches(c *hx.Case, r *rand.Rand, e *repository.FilterEntry, f *flt) string {
	if len(f.scripts) == 0 {
		return ""
	}
	g, err := e.GcsFilter()
	if err != nil {
		return "the stored filter does not decode: " + err.Error()
	}
	var h hx.Hash
	copy(h[:], f.hash)
	key := builder.DeriveKey(hx.CH(h))
	for i, s := range f.scripts {
		if len(f.scripts) > 100 && i%50 > 0 {
			continue
		}
		if ok, err := g.Match(key, s); err != nil || !ok {
			return "the stored filter does not match a script of its block"
		}
	}
	want, _ := gcs.FromNBytes(builder.DefaultP, builder.DefaultM, f.b)
	for i := 0; i < 4; i++ {
		s := hx.RandBytes(r, 22)
		a, _ := g.Match(key, s)
		if b, _ := want.Match(key, s); a != b {
			return "the stored filter matches otherwise"
		}
	}
	c.Count("matches compared", len(f.scripts)+4)
	return ""
}

func hashes(r *rand.Rand, n int) [][]byte {
	var out [][]byte
	if r.Intn(3) == 0 { // all in one buffer, as in a message
		b := hx.RandBytes(r, 32*n)
		for i := 0; i < n; i++ {
			out = append(out, b[32*i:32*i+32])
		}
		return out
	}
	for i := 0; i < n; i++ {
		h := hx.RandBytes(r, 32)
		if i > 0 && r.Intn(2) == 0 { // one bit off
			copy(h, out[r.Intn(i)])
			h[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		}
		if i > 0 && r.Intn(8) == 0 { // reversed
			o := out[r.Intn(i)]
			for k := range h {
				h[k] = o[31-k]
			}
		}
		for _, o := range out {
			if bytes.Equal(o, h) {
				h = hx.RandBytes(r, 32)
			}
		}
		out = append(out, h)
	}
	return out
}

func caseFilters(c *hx.Case) {
	r := c.Rand
	ss := []*store{memStore(), pgStore(c)}
	hs := hashes(r, 1+r.Intn(8))
	keep := make([][]byte, len(hs))
	for i := range hs {
		keep[i] = append([]byte(nil), hs[i]...)
	}
	stored := make([]map[int]*flt, len(ss))
	for i := range ss {
		stored[i] = map[int]*flt{}
	}
	ops := 5 + r.Intn(40)
	c.Sig("%d %d %x", len(hs), ops, hs[0][:4])
	first := map[int]*flt{}
	for k := 0; k < ops && !c.Failed(); k++ {
		i := r.Intn(len(hs))
		h := append([]byte(nil), keep[i]...)
		if r.Intn(2) == 0 {
			h = hs[i]
		}
		if r.Intn(3) == 0 {
			f := newFlt(r, keep[i])
			if first[i] != nil && r.Intn(2) == 0 {
				f = first[i]
				if r.Intn(3) == 0 {
					f = f.nearly(r)
					c.Count("contents that are nearly the same", 1)
				}
			}
			g := *f
			g.hash = h
			for n, s := range ss {
				old := stored[n][i]
				err := g.put(r, s)
				c.Log("%s put %d %d bytes: %v", s.name, i, len(f.b), err)
				switch {
				case old == nil:
					c.Count("filters stored", 1)
					if err != nil {
						c.Violate(s.name+": filter refused", "PutFilter of the filter of a new block: %v", err)
					}
					stored[n][i] = f
				case bytes.Equal(old.b, f.b):
					c.Count("filters stored again", 1)
					if err != nil {
						c.Violate(s.name+": same filter refused", "PutFilter of what is stored: %v", err)
					}
				case s.pg != nil:
					c.Count("other content refused", 1)
					if err == nil {
						c.Violate(s.name+": other content accepted", "PutFilter of another filter for the same block returns no error")
					}
				case err == nil:
					stored[n][i] = f // the in-memory store may take it
				}
			}
			if first[i] == nil {
				first[i] = f
			}
		} else {
			for n, s := range ss {
				s.readFilter(c, r, h, stored[n][i])
			}
		}
		for j := range hs {
			if !bytes.Equal(hs[j], keep[j]) {
				c.Violate("the hash of the caller is changed", "a call for the key of a block changed the bytes of another block's hash in the caller's buffer")
				return
			}
		}
	}
	for n, s := range ss {
		for i := range hs {
			s.readFilter(c, r, keep[i], stored[n][i])
		}
	}
	c.Count("database statements", sum(ss[1].pg.Statements()))
	ss[1].quiet(c, "the sequence")
}

func (s *store) readFilter(c *hx.Case, r *rand.Rand, h []byte, want *flt) {
	e, err := s.F.GetFilter(ctx, repository.FilterKey{BlockHash: h, FilterType: repository.RegularFilter})
	if want == nil {
		c.Count("filters not found", 1)
		if !errors.Is(err, repository.ErrFilterNotFound) {
			c.Violate(s.name+": filter of another block", "GetFilter for a block without filter: %v, %v", e, err)
		}
		return
	}
	c.Count("filters read", 1)
	if err != nil || e == nil || !bytes.Equal(e.NBytes, want.b) {
		c.Violate(s.name+": filter", "GetFilter: %v, %v instead of %x", e, err, want.b)
		return
	}
	if !bytes.Equal(e.Key.BlockHash, h) {
		c.Violate(s.name+": key of the filter", "GetFilter for block %x returns key %x", h, e.Key.BlockHash)
	}
	if w := matches(c, r, e, want); w != "" {
		c.Violate(s.name+": matches", "%s", w)
	}
}

func caseFiltersConc(c *hx.Case) {
	r := c.Rand
	var s *store
	if r.Intn(2) == 0 {
		s = memStore()
	} else {
		s = pgStore(c)
	}
	nk := 1 + r.Intn(4)
	hs := hashes(r, nk)
	type content struct {
		f  *flt
		ok bool
	}
	cont := make([][]*content, nk)
	for i := range cont {
		for n := 1 + r.Intn(3); n > 0; n-- {
			cont[i] = append(cont[i], &content{f: newFlt(r, hs[i])})
		}
		if len(cont[i]) > 1 {
			c.Count("contended keys", 1)
		}
	}
	nc := 2 + r.Intn(4)
	c.Sig("%s %d %d %x", s.name, nk, nc, hs[0][:4])
	var mu sync.Mutex
	var wg sync.WaitGroup
	won := make([]*content, nk) // database: the content of the puts that succeeded
	for k := 0; k < nc; k++ {
		lr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		c.Go(func() {
			defer wg.Done()
			seen := map[int]bool{}
			for n := 4 + lr.Intn(8); n > 0; n-- {
				i := lr.Intn(nk)
				c.Count("concurrent operations", 1)
				if lr.Intn(2) == 0 {
					x := cont[i][lr.Intn(len(cont[i]))]
					err := x.f.put(lr, s)
					mu.Lock()
					if err == nil {
						x.ok = true
						if w := won[i]; s.pg != nil && w != nil && !bytes.Equal(w.f.b, x.f.b) {
							c.Violate(s.name+": two contents accepted", "two different filters for one block were both accepted")
						}
						won[i] = x
					} else if s.pg != nil && won[i] == nil && len(cont[i]) == 1 || s.pg == nil {
						c.Violate(s.name+": filter refused", "concurrent PutFilter: %v", err)
					}
					mu.Unlock()
					seen[i] = true
					continue
				}
				e, err := s.F.GetFilter(ctx, repository.FilterKey{BlockHash: hs[i], FilterType: repository.RegularFilter})
				if err != nil {
					if !errors.Is(err, repository.ErrFilterNotFound) {
						c.Violate(s.name+": concurrent read fails", "GetFilter: %v", err)
					} else if seen[i] {
						c.Violate(s.name+": filter lost", "GetFilter does not find what this client stored or read before")
					}
					continue
				}
				seen[i] = true
				ok := false
				for _, x := range cont[i] {
					ok = ok || bytes.Equal(x.f.b, e.NBytes)
				}
				if !ok {
					c.Violate(s.name+": filter", "GetFilter returns what nobody stored for this block: %x", e.NBytes)
				}
			}
		})
	}
	wg.Wait()
	for i := range hs {
		if won[i] == nil {
			s.readFilter(c, r, hs[i], nil)
			continue
		}
		if s.pg != nil || len(cont[i]) == 1 {
			s.readFilter(c, r, hs[i], won[i].f)
		}
	}
	s.quiet(c, "the concurrent use")
}

// caseCollide stores the filters of two blocks whose hashes were searched for
// (2^26 tries) to have the same 48-bit key, or keys that begin with the same 32
// or 40 bits.
func caseCollide(c *hx.Case) {
	r := c.Rand
	s := memStore()
	if c.Idx%2 == 1 {
		s = pgStore(c)
	}
	var hs [2][]byte
	for i, n := range [][]uint32{{59030095, 4475432}, {89077, 107738}, {421051, 701909}}[c.Idx/2] {
		hs[i] = make([]byte, 32)
		binary.LittleEndian.PutUint32(hs[i], n)
	}
	a := newFlt(r, hs[0])
	for len(a.scripts) == 0 {
		a = newFlt(r, hs[0])
	}
	if err := a.put(r, s); err != nil {
		c.Violate(s.name+": filter refused", "PutFilter: %v", err)
		return
	}
	c.Sig("collision %s %x", s.name, hs[0])
	s.readFilter(c, r, hs[0], a)
	e, err := s.F.GetFilter(ctx, repository.FilterKey{BlockHash: hs[1], FilterType: repository.RegularFilter})
	if err == nil && bytes.Equal(e.NBytes, a.b) {
		c.Log("%s: the filter of block %x is returned for block %x", s.name, hs[0], hs[1])
		if c.Idx > 1 {
			c.Violate(s.name+": filter of another block", "the filter of block %x is returned for block %x", hs[0], hs[1])
			return
		}
		c.R.Known("filter keys of 48 bits collide")
		return
	}
	if !errors.Is(err, repository.ErrFilterNotFound) {
		c.Violate(s.name+": filter of another block", "GetFilter for a block without filter: %v, %v", e, err)
	}
}

// caseSize stores filters of every size up to the largest a message carries.
func caseSize(c *hx.Case) {
	r := c.Rand
	s := memStore()
	if c.Idx%2 == 1 {
		s = pgStore(c)
	}
	var fs []*flt
	for n := 1 + r.Intn(3); n > 0; n-- {
		f := &flt{hash: hx.RandBytes(r, 32), raw: true}
		if k := c.Idx / 2 % 8; k == 7 { // a real one
			f.raw = false
			for i := 3000 + r.Intn(40000); i > 0; i-- {
				f.scripts = append(f.scripts, hx.RandBytes(r, 8))
			}
			var h hx.Hash
			copy(h[:], f.hash)
			f.b = hx.FilterOf(h, f.scripts)
		} else {
			size := []int{1 << 8, 1 << 12, 1 << 13, 1 << 16, 100000, 1 << 18, 1<<18 + r.Intn(1<<20)}[k]
			f.b = hx.RandBytes(r, size-2+r.Intn(5))
		}
		if len(f.b) > 1<<16 {
			c.Count("filters beyond 64 KiB", 1)
		}
		fs = append(fs, f)
		if err := f.put(r, s); err != nil {
			c.Violate(s.name+": filter refused", "PutFilter of %d bytes: %v", len(f.b), err)
			return
		}
	}
	for _, f := range fs {
		c.Sig("%s %d", s.name, len(f.b))
		e, err := s.F.GetFilter(ctx, repository.FilterKey{BlockHash: f.hash, FilterType: repository.RegularFilter})
		if err != nil || e == nil || !bytes.Equal(e.NBytes, f.b) {
			n := -1
			if e != nil {
				n = len(e.NBytes)
			}
			c.Violate(s.name+": filter", "GetFilter of a filter of %d bytes: %d bytes, %v", len(f.b), n, err)
			return
		}
		if w := matches(c, r, e, f); w != "" {
			c.Violate(s.name+": matches", "%s", w)
		}
		if g := f.nearly(r); s.pg != nil && g.put(r, s) == nil {
			c.Violate(s.name+": other content accepted", "PutFilter of another filter for the same block returns no error (%d and %d bytes)", len(f.b), len(g.b))
		}
	}
	s.quiet(c, "the sequence")
}
