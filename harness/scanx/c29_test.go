package scanx

import (
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC29(t *testing.T) {
	hx.Main(t, "C29", "Each case is the real daemon with an emulated database. Its peer does not answer some or all requests for filters or hangs up instead, the database does not take some filters or headers, the daemon is killed or ended before the filters have arrived and started again. Then all works again, and within minutes a subscriber has to be told of all blocks and all filters have to be stored. Distinct by network, failures and what was missing.", func(r *hx.Run) {
		r.Require("daemons", "requests for filters not answered", "filters the database did not take", "filters missing in the end", "events due", "starts on an old database")
		r.CaseTime(12 * time.Minute)
		patience = 200 * time.Second // what was lost is asked for again after one to two minutes
		r.Workers(14)
		daemonExe = os.Getenv("HX_DAEMON")
		var err error
		if _, err = os.Stat(daemonExe); err != nil {
			r.Error("no daemon to test: %v", err)
			return
		}
		if daemonDir, err = os.MkdirTemp("", "daemon"); err != nil {
			r.Error("scratch: %v", err)
			return
		}
		defer os.RemoveAll(daemonDir)
		r.Cases("daemon", r.N(14, 280), caseFetchedAgain)
	})
}

func caseFetchedAgain(c *hx.Case) {
	r := c.Rand
	w := newWorld(c, 1)
	c.Count(w.chain.Net, 1)
	ds := purse(c, 1)
	total := 3 + r.Intn(60)
	for i := 0; i < total; i++ {
		w.payTo(ds)
	}
	p := newPlace(c, w)
	pg, err := hx.NewPG()
	if err != nil {
		c.Errorf("pg: %v", err)
		return
	}
	p.pg = pg
	c.Cleanup(func() {
		pg.Close()
		if u := pg.Unsupported(); len(u) > 0 {
			c.Errorf("the emulated database does not know: %v", u)
		}
	})
	// what fails, as long as it does
	var failing, last atomic.Bool
	failing.Store(true)
	ways := []string{"peer", "database", "both", "all"}
	way := ways[c.Idx%len(ways)]
	percent := []int{100, 60, 20}[r.Intn(3)]
	if way == "all" {
		percent = 100
	}
	hang := r.Intn(3) == 0
	headers := r.Intn(2) == 0
	var mu sync.Mutex
	q := rand.New(rand.NewSource(r.Int63()))
	lose := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return failing.Load() && q.Intn(100) < percent
	}
	p.mu.Lock()
	if r.Intn(2) == 0 {
		p.batch = 1 + r.Intn(20)
	}
	p.lose = func(cmd string) (not, end bool) {
		if cmd != "getcfilters" || way == "database" || !lose() {
			return false, false
		}
		c.Count("requests for filters not answered", 1)
		// the daemon has no other peer: it cannot go on without this one
		return true, hang && !last.Load()
	}
	p.mu.Unlock()
	pg.SetFault(func(kind, sql string) hx.PGAct {
		if way == "peer" || way == "all" || !strings.HasPrefix(strings.TrimSpace(sql), "INSERT") || strings.Contains(sql, "migrations") {
			return hx.PGAct{}
		}
		if strings.Contains(sql, "block_header") && (!headers || !lose()) || !lose() {
			return hx.PGAct{}
		}
		if strings.Contains(sql, "block_header") {
			c.Count("headers the database did not take", 1)
		} else {
			c.Count("filters the database did not take", 1)
		}
		return hx.PGAct{Code: "53100"}
	})
	p.top.Store(int64(total - r.Intn(3)))
	history := ""
	var d *process
	lives := 1 + r.Intn(3)
	for i := 0; i < lives; i++ {
		if i > 0 {
			c.Count("starts on an old database", 1)
		}
		last.Store(i == lives-1)
		d = p.launch(p.settings(loopback() + ":8000"))
		time.Sleep(time.Duration(500+r.Intn(3000)) * time.Millisecond)
		if i == lives-1 {
			break
		}
		if r.Intn(2) == 0 {
			c.Count("kills", 1)
			history += " killed"
			d.cmd.Process.Kill()
			<-d.done
		} else {
			history += " ended"
			if !d.early(signals[r.Intn(3)]) {
				return
			}
		}
	}
	if lives > 1 && r.Intn(2) == 0 {
		// the last one is started only when all works again
		failing.Store(false)
	}
	p.mine(int64(total))
	time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
	failing.Store(false)
	miss := len(pg.Rows("block_header")) - len(pg.Rows("filter"))
	if miss > 0 {
		c.Count("filters missing in the end", miss)
	}
	t0 := time.Now()
	if !d.serving() {
		return
	}
	x := dialDaemon(c, d.at, "ws")
	if !x.subscribe(d.at, ds[0], 0) {
		return
	}
	n := x.check(w, int64(total), true)
	c.Count("events due", n)
	if c.Failed() {
		c.Log("daemon: %s", tail(d.text(), 3000))
		return
	}
	c.Log("all told after %v", time.Since(t0).Round(time.Second))
	for end := time.Now().Add(patience); len(pg.Rows("filter")) < total; time.Sleep(100 * time.Millisecond) {
		if time.Now().After(end) {
			c.Violate("filters stay missing", "after %v, with a peer that serves them, %d of %d filters are stored", patience, len(pg.Rows("filter")), total)
			return
		}
	}
	c.Log("all there after %v", time.Since(t0).Round(time.Second))
	c.Sig("%s, %d blocks,%s, %s fails in %d of 100 (hangs up %v, headers %v), %d missing", w.chain.Net, total, history, way, percent, hang, headers, miss)
	d.signal(signals[r.Intn(3)])
}
