package repox

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

var ctx = context.Background()

// store is one of the implementations.
type store struct {
	name string
	H    repository.BlockHeaderRepository
	F    repository.FilterRepository
	pg   *hx.PG
	db   *dbpg.DbService
	idle int // connections in use when nothing is going on
}

func migrations() string {
	repo := os.Getenv("HX_REPO")
	if repo == "" {
		repo = "/repo"
	}
	return "file://" + repo + "/internal/infrastructure/storage/db/pg/migration"
}

func memStore() *store {
	return &store{name: "memory", H: inmemory.NewHeaderInmemory(), F: inmemory.NewFilterInmemory()}
}

func dbConfig(pg *hx.PG) dbpg.DbConfig {
	return dbpg.DbConfig{DbUser: "u", DbPassword: "p", DbHost: "127.0.0.1", DbPort: pg.Port, DbName: "fake", MigrationSourceURL: migrations()}
}

// pgStore is the database store with its driver, over an emulated server; the
// tables are those of the migrations.
func pgStore(c *hx.Case) *store {
	pg, err := hx.NewPG()
	if err != nil {
		c.Errorf("pg: %v", err)
		c.Abort()
	}
	c.Cleanup(pg.Close)
	s := &store{name: "database", pg: pg}
	if s.db, err = dbpg.NewDbService(dbConfig(pg)); err != nil {
		s.check(c)
		c.Violate("database service does not start", "NewDbService: %v", err)
		c.Abort()
	}
	s.H, err = dbpg.NewHeaderRepositoryImpl(s.db)
	if err == nil {
		s.F, err = dbpg.NewFilterRepositoryImpl(s.db)
	}
	if err != nil {
		c.Violate("repository does not start", "%v", err)
		c.Abort()
	}
	s.idle = s.db.Db.Stats().InUse
	c.Cleanup(func() { s.db.Db.Close(); s.check(c) })
	return s
}

// check makes the run inconclusive when the emulated server did not understand.
func (s *store) check(c *hx.Case) {
	if s.pg == nil {
		return
	}
	if u := s.pg.Unsupported(); len(u) > 0 {
		c.Errorf("the emulated database does not know: %v", u)
		c.Abort()
	}
}

// quiet checks that a call has left no transaction or connection behind.
func (s *store) quiet(c *hx.Case, what string) {
	if s.pg == nil {
		return
	}
	s.check(c)
	if n := s.db.Db.Stats().InUse; n > s.idle {
		c.Violate("connection left in use", "after %s %d connections are in use, %d before", what, n, s.idle)
		c.Abort()
	}
	if l := s.pg.LockWaits(); len(l) > 0 {
		c.Violate("transaction left open", "after %s: statements wait for a transaction nobody ends: %v", what, l)
		c.Abort()
	}
}

// hdr is a header as sent by a peer.
type hdr struct {
	i    int
	h    *hx.Header
	hash hx.Hash
	b    []byte
}

func (h *hdr) val() block.Header {
	v, err := block.DeserializeHeader(bytes.NewBuffer(h.b))
	if err != nil {
		panic(fmt.Sprintf("harness: header: %v", err))
	}
	return *v
}

// chain makes n headers of distinct heights from h0 on, most of them linked to
// the one before.
func chain(r *rand.Rand, h0 uint32, n int, odd bool) []*hdr {
	var out []*hdr
	for i := 0; i < n; i++ {
		h := hx.RandHeader(r, h0+uint32(i))
		if i > 0 {
			h.Prev = out[i-1].hash
			if odd && r.Intn(12) == 0 { // linked to something else
				h.Prev = out[r.Intn(i)].hash
				if r.Intn(2) == 0 {
					h.Prev = hx.RandHash(r)
				}
			}
		}
		out = append(out, &hdr{i: i, h: h, hash: h.Hash(), b: h.Bytes()})
	}
	return out
}

// model is what the store has to be.
type model struct {
	all    []*hdr
	stored map[hx.Hash]*hdr
	height map[uint32]*hdr
}

func newModel(all []*hdr) *model {
	return &model{all: all, stored: map[hx.Hash]*hdr{}, height: map[uint32]*hdr{}}
}

func (m *model) add(h *hdr) {
	m.stored[h.hash] = h
	m.height[h.h.Height] = h
}

func (m *model) tip() *hdr {
	var t *hdr
	for _, h := range m.stored {
		if t == nil || h.h.Height > t.h.Height {
			t = h
		}
	}
	return t
}

// ancestors says whether the chain of previous blocks is there down to height 1.
func (m *model) ancestors(h *hdr) bool {
	for h.h.Height > 1 {
		p := m.stored[h.h.Prev]
		if p == nil {
			return false
		}
		h = p
	}
	return true
}

// hole says whether a height between 1 and the tip is missing.
func (m *model) hole() bool {
	t := m.tip()
	for i := uint32(1); t != nil && i < t.h.Height; i++ {
		if m.height[i] == nil {
			return true
		}
	}
	return false
}

func same(got *block.Header, want *hdr) error {
	if got == nil {
		return errors.New("nil header")
	}
	b, err := got.Serialize()
	if err != nil {
		return err
	}
	if !bytes.Equal(b, want.b) {
		return fmt.Errorf("another header: height %d, %x instead of %x", got.Height, cut(b), cut(want.b))
	}
	h, err := got.Hash()
	if err != nil || hx.Hash(h) != want.hash {
		return fmt.Errorf("hash %v instead of %v (%v)", h, want.hash, err)
	}
	return nil
}

func cut(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}
