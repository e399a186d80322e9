package repox

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC16(t *testing.T) {
	hx.Main(t, "C16", "The database store with its driver against an emulated server that fails at a drawn statement of a drawn call: it refuses or cuts connections before or after executing, answers with an error when preparing or executing, in the middle of the rows, or at the commit. After every call its result is checked against the contents of the database, and that no connection or transaction is left behind; after the fault every call has to work. Distinct by fault, statement and call.", func(r *hx.Run) {
		r.Require("faults met", "calls that failed", "batches that failed", "batches stored next to stored headers", "reads that failed", "filters that failed", "calls after the fault", "restarts", "lost acknowledgements", "starts that failed", "concurrent calls that failed", "large batches that failed", "large batches stored")
		r.Cases("faults", r.N(1500, 60000), caseFault)
		r.Cases("start", r.N(150, 3000), caseStart)
		r.Cases("large batches", r.N(40, 1500), caseFaultLarge)
		r.Cases("concurrent", r.N(250, 10000), caseFaultConc)
	})
}

// fault fails the nth statement from now on that fits; times -1: all of them.
type fault struct {
	mu    sync.Mutex
	skip  int
	kind  string // statement kind, "" any
	act   hx.PGAct
	times int
	fired int
	what  string
	max   int
}

var codes = []string{"XX000", "57P01", "53200", "40001", "40P01", "58030", "25006", "42501", "55000", "08006"}

func newFault(r *rand.Rand) *fault {
	f := &fault{skip: r.Intn(4), times: 1, max: -1}
	if r.Intn(3) == 0 {
		f.skip = 0
	}
	if r.Intn(2) == 0 {
		f.times = -1
		f.max = 1 + r.Intn(12)
		if r.Intn(2) == 0 {
			f.max = -1
		}
	}
	f.kind = []string{"", "", "connect", "begin", "commit", "insert", "select", "parse", "rollback"}[r.Intn(9)]
	if f.kind == "connect" || f.kind == "begin" || f.kind == "commit" {
		f.skip = 0
	}
	code := codes[r.Intn(len(codes))]
	switch r.Intn(7) {
	case 0, 1:
		f.act = hx.PGAct{Code: code}
	case 2:
		f.act = hx.PGAct{Drop: "before"}
	case 3:
		f.act = hx.PGAct{Drop: "after"}
	case 4:
		f.act = hx.PGAct{Code: code, Mid: "error", Rows: r.Intn(8)}
	case 5:
		f.act = hx.PGAct{Code: code, Mid: "drop", Rows: r.Intn(8)}
	default:
		f.act = hx.PGAct{Code: code, Parse: true}
	}
	if f.act.Mid != "" {
		f.kind = "select"
	}
	f.what = fmt.Sprintf("%+v at %q after %d, %d times", f.act, f.kind, f.skip, f.times)
	return f
}

func (f *fault) decide(kind, sql string) hx.PGAct {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.kind != "" && !strings.HasPrefix(kind, f.kind) || f.times == 0 {
		return hx.PGAct{}
	}
	if f.act.Parse && !strings.HasPrefix(kind, "parse") {
		return hx.PGAct{}
	}
	if f.skip > 0 {
		f.skip--
		return hx.PGAct{}
	}
	if f.times > 0 {
		f.times--
	}
	if f.max == 0 {
		return hx.PGAct{}
	}
	f.max--
	f.fired++
	return f.act
}

// contents reads the headers in the database, past the store.
func (s *store) contents(c *hx.Case, all []*hdr) *model {
	m := newModel(all)
	by := map[string]*hdr{}
	for _, h := range all {
		by[h.hash.String()] = h
	}
	for _, row := range s.pg.Rows("block_header") {
		h := by[fmt.Sprint(row["hash"])]
		if h == nil {
			// another way to write the hash down
			for _, x := range all {
				if b, ok := row["header_bytes"].([]byte); ok && bytes.Equal(b, x.b) {
					h = x
				}
			}
		}
		if h == nil {
			c.Violate("row of no header", "a row that is no header was written: %v", row)
			c.Abort()
		}
		m.add(h)
	}
	return m
}

func caseFault(c *hx.Case) {
	r := c.Rand
	s := pgStore(c)
	all := chain(r, uint32(r.Intn(3)), 6+r.Intn(20), false)
	m := newModel(all)
	var flts []*flt
	stored := map[int]*flt{}
	for i := 0; i < 4; i++ {
		flts = append(flts, newFlt(r, hx.RandBytes(r, 32)))
	}
	if r.Intn(4) > 0 {
		b := all[:1+r.Intn(len(all)-1)]
		if err := s.write(c, b); err != nil {
			c.Violate("write refused", "WriteHeaders: %v", err)
			return
		}
		for _, h := range b {
			m.add(h)
		}
	}
	for k := 0; k < 3+r.Intn(5) && !c.Failed(); k++ {
		f := newFault(r)
		if r.Intn(6) == 0 {
			c.Count("restarts", 1)
			s.pg.Cut()
		}
		down := r.Intn(10) == 0
		if down {
			s.pg.SetDown(true)
			f.what = "server down"
			f.fired = 1
		} else {
			s.pg.SetFault(f.decide)
		}
		op := r.Intn(9)
		c.Log("fault %s, call %d", f.what, op)
		switch {
		case op < 4:
			s.faultWrite(c, r, m, f)
		case op < 6:
			s.faultFilter(c, r, flts, stored, f)
		default:
			s.faultRead(c, r, m, f)
		}
		s.pg.SetFault(nil)
		if down {
			s.pg.SetDown(false)
		}
		if f.fired > 0 {
			c.Count("faults met", 1)
			c.Distinct("%s %d", f.what, op)
		}
		s.quiet(c, f.what)
		// the database is there again
		c.Count("calls after the fault", 1)
		switch r.Intn(3) {
		case 0:
			s.read(c, m, r.Intn(4), all[r.Intn(len(all))])
		case 1:
			b := pickBatch(r, all, func(h *hdr) bool { return m.stored[h.hash] != nil })
			if err := s.write(c, b); err != nil {
				c.Violate("not usable after the fault", "WriteHeaders after %s: %v", f.what, err)
			}
			again := false
			for _, h := range b {
				again = again || m.stored[h.hash] != nil
				m.add(h)
			}
			if again {
				c.Count("batches stored next to stored headers", 1)
			}
		default:
			i := r.Intn(len(flts))
			if err := flts[i].put(r, s); err != nil {
				c.Violate("not usable after the fault", "PutFilter after %s: %v", f.what, err)
			}
			stored[i] = flts[i]
			s.readFilter(c, r, flts[i].hash, flts[i])
		}
	}
	c.Sig("%d %d", len(all), r.Int())
	if c.Failed() {
		return
	}
	all5(c, []*store{s}, m)
	for i := range flts {
		s.readFilter(c, r, flts[i].hash, stored[i])
	}
	s.quiet(c, "the end")
}

// caseFaultLarge: batches of up to thousands of headers, of which one in the midst
// fails, or the commit.
func caseFaultLarge(c *hx.Case) {
	r := c.Rand
	s := pgStore(c)
	n := []int{150, 600, 1200, 2100, 2600}[r.Intn(5)]
	all := chain(r, uint32(r.Intn(3)), n+r.Intn(300), false)
	m := newModel(all)
	if r.Intn(2) == 0 {
		b := all[:1+r.Intn(len(all)/2)]
		if err := s.write(c, b); err != nil {
			c.Violate("write refused", "WriteHeaders: %v", err)
			return
		}
		for _, h := range b {
			m.add(h)
		}
	}
	first := len(m.stored)
	for i := 0; i < 2 && !c.Failed(); i++ {
		b := all[first:]
		if r.Intn(3) == 0 { // some of them are stored
			b = all[first/2:]
		}
		f := newFault(r)
		f.times, f.max = 1, -1
		f.kind = []string{"insert", "insert", "", "commit", "parse"}[r.Intn(5)]
		f.act = []hx.PGAct{{Code: codes[r.Intn(len(codes))]}, {Drop: "before"}, {Drop: "after"}}[r.Intn(3)]
		f.skip = r.Intn(len(b))
		if f.kind == "" {
			f.skip = r.Intn(2 * len(b))
		}
		if f.kind == "commit" || f.kind == "parse" && r.Intn(2) == 0 {
			f.skip = 0
		}
		f.what = fmt.Sprintf("%+v at %q after %d", f.act, f.kind, f.skip)
		s.pg.SetFault(f.decide)
		s.faultWriteOf(c, b, m, f)
		s.pg.SetFault(nil)
		if f.fired > 0 {
			c.Count("faults met", 1)
			c.Count("large batches that failed", 1)
			c.Distinct("%s of %d", f.what, len(b))
		}
		s.quiet(c, f.what)
	}
	if c.Failed() {
		return
	}
	if err := s.write(c, all[first:]); err != nil {
		c.Violate("not usable after the fault", "WriteHeaders of %d headers: %v", len(all)-first, err)
		return
	}
	if now := s.contents(c, all); len(now.stored) != len(all) {
		c.Violate("failure not reported", "WriteHeaders returns nil, %d of %d headers are stored", len(now.stored), len(all))
		return
	}
	c.Count("large batches stored", 1)
	c.Sig("large %d %d", first, len(all))
}

func (s *store) faultWrite(c *hx.Case, r *rand.Rand, m *model, f *fault) {
	s.faultWriteOf(c, pickBatch(r, m.all, func(h *hdr) bool { return m.stored[h.hash] != nil }), m, f)
}

func (s *store) faultWriteOf(c *hx.Case, b []*hdr, m *model, f *fault) {
	err := s.write(c, b)
	now := s.contents(c, m.all)
	missing, added := 0, 0
	for _, h := range b {
		if now.stored[h.hash] == nil {
			missing++
		}
	}
	for h := range now.stored {
		if m.stored[h] == nil {
			added++
		}
	}
	if len(now.stored) < len(m.stored) {
		c.Violate("headers lost", "%d headers were stored, %d are after %s", len(m.stored), len(now.stored), f.what)
	}
	if err == nil && missing > 0 {
		c.Violate("failure not reported", "WriteHeaders returns nil, %d of %d headers are not stored; %s", missing, len(b), f.what)
	}
	if err != nil {
		c.Count("calls that failed", 1)
		c.Count("batches that failed", 1)
		if missing > 0 && added > 0 {
			c.Violate("half of a batch", "WriteHeaders fails (%v), %d headers were added and %d of the batch of %d are missing; %s", err, added, missing, len(b), f.what)
		}
		if added > 0 {
			// only a cut after the commit may leave them, the answer was lost
			if f.act.Drop != "after" {
				c.Violate("failed batch stored", "WriteHeaders fails (%v) but %d headers are stored; %s", err, added, f.what)
			}
			c.Count("lost acknowledgements", 1)
		}
		if f.fired == 0 {
			c.Violate("write refused", "WriteHeaders: %v without a fault", err)
		}
	}
	for _, h := range now.stored {
		m.add(h)
	}
}

func (s *store) faultFilter(c *hx.Case, r *rand.Rand, flts []*flt, stored map[int]*flt, f *fault) {
	i := r.Intn(len(flts))
	if r.Intn(3) == 0 {
		e, err := s.F.GetFilter(ctx, flts[i].key())
		want := stored[i]
		switch {
		case err == nil:
			if want == nil || e == nil || !bytes.Equal(e.NBytes, want.b) {
				c.Violate("failure not reported", "GetFilter returns %v; %s", e, f.what)
			}
		case errors.Is(err, repository.ErrFilterNotFound):
			if want != nil {
				c.Violate("failure reported as not found", "GetFilter of a stored filter: %v; %s", err, f.what)
			}
		case f.fired == 0:
			c.Violate("read refused", "GetFilter: %v without a fault", err)
		default:
			c.Count("calls that failed", 1)
			c.Count("reads that failed", 1)
		}
		return
	}
	x := flts[i]
	other := stored[i] != nil && r.Intn(3) == 0
	if other {
		y := newFlt(r, x.hash)
		y.b = hx.FilterOf(hx.Hash(x.hash), [][]byte{hx.RandBytes(r, 30)})
		x = y
	}
	err := x.put(r, s)
	rows := map[string]bool{}
	for _, row := range s.pg.Rows("filter") {
		rows[string(row["filter_value"].([]byte))] = true
	}
	if err == nil {
		if other {
			c.Violate("other content accepted", "PutFilter of another filter returns no error; %s", f.what)
		} else if !rows[string(x.b)] {
			c.Violate("failure not reported", "PutFilter returns nil, the filter is not stored; %s", f.what)
		}
	} else {
		c.Count("calls that failed", 1)
		c.Count("filters that failed", 1)
		if f.fired == 0 && !other {
			c.Violate("write refused", "PutFilter: %v without a fault", err)
		}
		if stored[i] == nil && f.act.Drop != "after" && rows[string(x.b)] && len(x.scripts) > 0 {
			c.Violate("failed filter stored", "PutFilter fails (%v) but the filter is stored; %s", err, f.what)
		}
	}
	if stored[i] == nil {
		s.pg.SetFault(nil)
		s.pg.SetDown(false)
		if e, err := s.F.GetFilter(ctx, x.key()); err == nil && bytes.Equal(e.NBytes, x.b) {
			stored[i] = x
		}
	}
}

func (s *store) faultRead(c *hx.Case, r *rand.Rand, m *model, f *fault) {
	h := m.all[r.Intn(len(m.all))]
	has := m.stored[h.hash] != nil
	var err error
	var what, wrong string
	switch r.Intn(5) {
	case 0:
		what = "GetBlockHeader"
		got, e := s.H.GetBlockHeader(ctx, *hx.CH(h.hash))
		if err = e; e == nil {
			if !has {
				wrong = "a header that is not stored"
			} else if e := same(got, h); e != nil {
				wrong = e.Error()
			}
		} else if has && errors.Is(e, repository.ErrBlockNotFound) {
			wrong = "not found"
		}
	case 1:
		what = "GetBlockHashByHeight"
		got, e := s.H.GetBlockHashByHeight(ctx, h.h.Height)
		if err = e; e == nil {
			if !has || got == nil || hx.Hash(*got) != h.hash {
				wrong = fmt.Sprint(got)
			}
		} else if has && errors.Is(e, repository.ErrBlockNotFound) {
			wrong = "not found"
		}
	case 2:
		what = "ChainTip"
		got, e := s.H.ChainTip(ctx)
		t := m.tip()
		if err = e; e == nil {
			if t == nil {
				wrong = "a tip of an empty store"
			} else if e := same(got, t); e != nil {
				wrong = e.Error()
			}
		} else if t != nil && errors.Is(e, repository.ErrNoBlocksHeaders) {
			wrong = "empty"
		}
	case 3:
		what = "HasAllAncestors"
		got, e := s.H.HasAllAncestors(ctx, *hx.CH(h.hash))
		if err = e; e == nil {
			if !has || got != m.ancestors(h) {
				wrong = fmt.Sprint(got)
			}
		} else if has && (errors.Is(e, repository.ErrBlockNotFound) || errors.Is(e, repository.ErrNoBlocksHeaders)) {
			wrong = e.Error()
		}
	default:
		what = "LatestBlockLocator"
		got, e := s.H.LatestBlockLocator(ctx)
		t := m.tip()
		if err = e; e == nil {
			if t == nil {
				wrong = "a locator of an empty store"
			} else {
				wrong = locator(got, m, t)
			}
		} else if t != nil && errors.Is(e, repository.ErrNoBlocksHeaders) || !m.hole() && errors.Is(e, repository.ErrBlockNotFound) {
			wrong = e.Error()
		}
	}
	if wrong != "" {
		c.Violate("failure reported as "+what+" result", "%s: %s (%v); %d headers stored; %s", what, wrong, err, len(m.stored), f.what)
	}
	if err != nil && f.fired > 0 {
		c.Count("calls that failed", 1)
		c.Count("reads that failed", 1)
	}
}

// caseStart starts the service over a database that fails meanwhile.
func caseStart(c *hx.Case) {
	r := c.Rand
	pg, err := hx.NewPG()
	if err != nil {
		c.Errorf("pg: %v", err)
		return
	}
	c.Cleanup(pg.Close)
	f := newFault(r)
	f.skip = r.Intn(12)
	if f.kind != "connect" {
		f.kind = ""
	}
	f.act.Mid, f.act.Parse = "", false
	if f.act.Code == "" && f.act.Drop == "" {
		f.act.Code = "XX000"
	}
	if r.Intn(6) == 0 {
		pg.SetDown(true)
		f.fired, f.times = 1, -1
	}
	pg.SetFault(f.decide)
	cfg := dbConfig(pg)
	noSource := r.Intn(8) == 0
	if noSource {
		cfg.MigrationSourceURL = "file:///nonexistent/migration"
	}
	t0 := time.Now()
	db, err := dbpg.NewDbService(cfg)
	c.Sig("%s %v", f.what, err != nil)
	if time.Since(t0) > 60*time.Second {
		c.Violate("start blocks", "NewDbService took %v; %s", time.Since(t0), f.what)
	}
	if u := pg.Unsupported(); len(u) > 0 {
		c.Errorf("the emulated database does not know: %v", u)
		return
	}
	if err != nil {
		c.Count("starts that failed", 1)
		if f.fired == 0 && !noSource {
			c.Violate("start refused", "NewDbService: %v without a fault", err)
		}
		return
	}
	if noSource {
		c.Violate("failure not reported", "NewDbService without migrations returns no error")
	}
	pg.SetFault(nil)
	pg.SetDown(false)
	h, err := dbpg.NewHeaderRepositoryImpl(db)
	if err == nil {
		_, err = h.ChainTip(ctx)
	}
	if !errors.Is(err, repository.ErrNoBlocksHeaders) {
		c.Violate("failure not reported", "NewDbService succeeds but the store does not work: %v; %s", err, f.what)
	}
	db.Db.Close()
}

// caseFaultConc has several clients while the database fails now and then.
func caseFaultConc(c *hx.Case) {
	r := c.Rand
	s := pgStore(c)
	nc := 2 + r.Intn(4)
	all := chain(r, 1, nc*12, false)
	var fm sync.Mutex
	fr := rand.New(rand.NewSource(r.Int63()))
	p := 2 + r.Intn(20)
	lost := false // a cut after executing: what failed may be stored
	s.pg.SetFault(func(kind, sql string) hx.PGAct {
		fm.Lock()
		defer fm.Unlock()
		if fr.Intn(p) > 0 {
			return hx.PGAct{}
		}
		f := newFault(fr)
		if f.act.Mid != "" && kind != "select" || f.act.Parse {
			return hx.PGAct{}
		}
		if f.act.Drop == "after" {
			lost = true
		}
		return f.act
	})
	type res struct {
		b   []*hdr
		err error
	}
	var mu sync.Mutex
	var out []res
	var wg sync.WaitGroup
	for k := 0; k < nc; k++ {
		mine := all[k*12 : k*12+12]
		lr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		c.Go(func() {
			defer wg.Done()
			for len(mine) > 0 {
				n := 1 + lr.Intn(4)
				if n > len(mine) {
					n = len(mine)
				}
				b := append([]*hdr(nil), mine[:n]...)
				mine = mine[n:]
				err := s.write(c, b)
				mu.Lock()
				out = append(out, res{b, err})
				mu.Unlock()
				h := all[lr.Intn(len(all))]
				if got, err := s.H.GetBlockHeader(ctx, *hx.CH(h.hash)); err == nil {
					if e := same(got, h); e != nil {
						c.Violate("header", "GetBlockHeader: %v", e)
					}
				}
				s.H.ChainTip(ctx)
			}
		})
	}
	wg.Wait()
	s.pg.SetFault(nil)
	now := s.contents(c, all)
	m := newModel(all)
	for _, x := range out {
		n := 0
		for _, h := range x.b {
			if now.stored[h.hash] != nil {
				n++
				m.add(h)
			}
		}
		switch {
		case x.err == nil && n < len(x.b):
			c.Violate("failure not reported", "concurrent WriteHeaders returns nil, %d of %d headers are stored", n, len(x.b))
		case x.err != nil && n > 0 && n < len(x.b):
			c.Violate("half of a batch", "concurrent WriteHeaders fails (%v), %d of %d headers are stored", x.err, n, len(x.b))
		case x.err != nil && n > 0 && !lost:
			c.Violate("failed batch stored", "concurrent WriteHeaders fails (%v) but its %d headers are stored", x.err, n)
		}
		if x.err != nil {
			c.Count("concurrent calls that failed", 1)
		}
	}
	c.Sig("%d %d %d", nc, p, len(now.stored))
	s.quiet(c, "the concurrent use")
	all5(c, []*store{s}, m)
}
