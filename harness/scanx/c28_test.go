package scanx

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

var lastPort atomic.Int64

// ownPort returns a port no other case gets, neither from here nor from the
// kernel, whose own choices begin at 32768.
func ownPort() string {
	for i := 0; i < 100; i++ {
		port := fmt.Sprint(10000 + lastPort.Add(1)%20000)
		if l, err := net.Listen("tcp", ":"+port); err == nil {
			l.Close()
			return port
		}
	}
	return ""
}

// word returns a name or password as people have them.
func word(r *rand.Rand, n int, odd bool) string {
	plain := []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.")
	signs := []rune("@:/?#%&+= '\"\\$!*()[]{}<>|;,~^`äß€")
	l := []rune{plain[r.Intn(52)]}
	for len(l) < 1+n {
		if odd && r.Intn(3) == 0 {
			l = append(l, signs[r.Intn(len(signs))])
		} else {
			l = append(l, plain[r.Intn(len(plain))])
		}
	}
	return string(l)
}

type login struct {
	user, db string
	pass     bool
}

func TestC28(t *testing.T) {
	hx.Main(t, "C28", "A case is the daemon as a process with drawn settings in its environment (some left out, names and passwords with any signs, explorers with paths, further variables that are none of its settings) and everything on loopback. What is observed: the login at the database, the network of the messages to the peer, who is asked for blocks, where it serves, what it prints, and that a subscriber is told. Distinct by settings.", func(r *hx.Run) {
		r.Require("daemons", "logins", "daemons that serve", "settings left out", "passwords with signs", "names with signs", "explorers with a path", "liquid", "testnet", "regtest", "events due", "blocks asked for", "wrong passwords refused", "variables that are no settings")
		r.CaseTime(8 * time.Minute)
		r.Workers(14)
		daemonExe = os.Getenv("HX_DAEMON")
		var err error
		if _, err = os.Stat(daemonExe); err != nil {
			r.Error("no daemon to test: %v", err)
			return
		}
		if daemonDir, err = os.MkdirTemp("", "daemon"); err != nil {
			r.Error("scratch: %v", err)
			return
		}
		defer os.RemoveAll(daemonDir)
		r.Cases("settings", r.N(60, 1200), caseSettings)
	})
}

func caseSettings(c *hx.Case) {
	r := c.Rand
	w := newWorld(c, 1)
	ds := purse(c, 1)
	left := map[string]bool{}
	if r.Intn(2) == 0 {
		for _, k := range []string{"DB_USER", "DB_PASS", "DB_NAME", "DB_HOST", "LOG_LEVEL"} {
			left[k] = r.Intn(3) == 0
		}
	}
	left["NETWORK"] = w.chain.Net == "regtest" && r.Intn(2) == 0
	c.Count(w.chain.Net, 1)
	for i := 1 + r.Intn(6); i > 0; i-- {
		w.payTo(ds)
	}
	p := newPlace(c, w)
	p.top.Store(int64(w.chain.Height()))
	if r.Intn(2) == 0 {
		p.prefix = []string{"/api", "/liquid/api", "/a%20b/testnet", "/x.y/~z"}[r.Intn(4)]
		p.expAt += p.prefix
		p.prefix = strings.ReplaceAll(p.prefix, "%20", " ")
		c.Count("explorers with a path", 1)
	}
	host := "127.0.0.1"
	if !left["DB_HOST"] && r.Intn(2) == 0 {
		host = loopback()
	}
	pg, err := hx.NewPGAt(host + ":0")
	if err != nil {
		c.Errorf("pg: %v", err)
		return
	}
	p.pg = pg
	c.Cleanup(func() {
		pg.Close()
		if u := pg.Unsupported(); len(u) > 0 {
			c.Errorf("the emulated database does not know: %v", u)
		}
	})
	at := loopback() + fmt.Sprintf(":%d", 8000+r.Intn(1000))
	set := p.settings(at)
	set["DB_HOST"] = host
	switch r.Intn(4) { // the other ways to write where to serve
	case 0:
		if port := ownPort(); port != "" {
			host, _, _ := net.SplitHostPort(at)
			at = host + ":" + port
			set["NEUTRINOD_URL"] = ":" + port
		}
	case 1:
		if port := ownPort(); port != "" {
			at = "127.0.0.1:" + port
			set["NEUTRINOD_URL"] = "localhost:" + port
		}
	}
	if r.Intn(3) == 0 {
		set["PEER_URL"] = strings.Replace(p.peerAt, "127.0.0.1", "localhost", 1)
	}
	odd := r.Intn(3) > 0
	user, pass, db := word(r, r.Intn(12), odd && r.Intn(2) == 0), word(r, 1+r.Intn(30), odd), word(r, 1+r.Intn(12), odd && r.Intn(2) == 0)
	set["DB_USER"], set["DB_PASS"], set["DB_NAME"] = user, pass, db
	if strings.ContainsAny(pass, "@:/?#%&+=") {
		c.Count("passwords with signs", 1)
	}
	if strings.ContainsAny(user+db, "@:/?#%&+=") {
		c.Count("names with signs", 1)
	}
	level := r.Intn(7)
	set["LOG_LEVEL"] = fmt.Sprint(level)
	var without []string
	for k, v := range left {
		if !v {
			continue
		}
		without = append(without, k)
		delete(set, k)
		c.Count("settings left out", 1)
		switch k {
		case "DB_USER":
			user = "root"
		case "DB_PASS":
			pass = "secret"
		case "DB_NAME":
			db = "neutrino-elements"
		case "LOG_LEVEL":
			level = 4
		}
	}
	sort.Strings(without)
	wrong := r.Intn(8) == 0 // the database has another password
	var mu sync.Mutex
	var logins []login
	pg.MD5 = r.Intn(2) == 0
	pg.Login = func(u, d string, is func(string) bool) bool {
		mu.Lock()
		defer mu.Unlock()
		logins = append(logins, login{u, d, is(pass)})
		return !wrong
	}
	// variables of others
	other := map[string]string{}
	if r.Intn(2) == 0 {
		other = map[string]string{"NETWORK": "bitcoin", "PEER_URL": "127.0.0.1:1", "DB_USER": "nobody", "DB_PASS": "wrong", "DB_HOST": "192.0.2.1", "DB_PORT": "1", "DB_NAME": "none", "EXPLORER_URL": "http://127.0.0.1:1", "NEUTRINOD_URL": "127.0.0.1:1", "LOG_LEVEL": "6",
			"PGUSER": "nobody", "PGDATABASE": "none", "PGPASSWORD": "wrong"}
		c.Count("variables that are no settings", 1)
	}
	d := p.launchWith(set, other)
	what := fmt.Sprintf("user %q, password %q, database %q at %s, explorer %s, level %d, %s, without %v", user, pass, db, host, p.expAt, level, w.chain.Net, without)
	c.Log("%s", what)
	tell := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for _, l := range logins {
			c.Count("logins", 1)
			if l.user != user || l.db != db || !l.pass {
				c.Violate("wrong login", "%s: it logs in as %q at %q, the password is right: %v", what, l.user, l.db, l.pass)
				return false
			}
		}
		logins = nil
		return true
	}
	if wrong {
		if !d.ended(promptly + 5*time.Second) {
			c.Violate("start hangs", "%s: refused by the database: %s", what, tail(d.text(), 3000))
			return
		}
		if d.err == nil || !tell() {
			c.Violate("start does not fail", "%s: refused by the database, ends with %v", what, d.err)
			return
		}
		c.Count("wrong passwords refused", 1)
		c.Sig("refused %s", what)
		return
	}
	for end := time.Now().Add(patience); ; time.Sleep(20 * time.Millisecond) {
		if conn, err := net.DialTimeout("tcp", at, time.Second); err == nil {
			conn.Close()
			break
		}
		gone := false
		select {
		case <-d.done:
			gone = true
		default:
		}
		if gone || time.Now().After(end) {
			if tell() {
				c.Violate("daemon does not serve", "%s: nobody answers at %s (%v): %s", what, at, d.err, tail(d.text(), 3000))
			}
			return
		}
	}
	c.Count("daemons that serve", 1)
	x := dialDaemon(c, at, "ws")
	if !x.subscribe(at, ds[0], 0) {
		return
	}
	c.Count("events due", x.check(w, p.top.Load(), true))
	c.Count("blocks asked for", int(p.expCalls.Load()))
	if !tell() || c.Failed() {
		return
	}
	if !d.signal(signals[r.Intn(3)]) {
		return
	}
	out := d.text()
	names := []string{"panic", "fatal", "error", "warning", "info", "debug", "trace"}
	for i, n := range names {
		if i > level && strings.Contains(out, "level="+n) {
			c.Violate("wrong log level", "%s: level %s is printed: %s", what, n, tail(out, 1000))
			return
		}
	}
	if level >= 4 && !strings.Contains(out, "level=info") {
		c.Violate("wrong log level", "%s: nothing of level info is printed: %s", what, tail(out, 1000))
		return
	}
	if len(pg.Rows("block_header")) == 0 {
		c.Violate("nothing stored", "%s: there are no headers in the database", what)
		return
	}
	c.Sig("%s", what)
	c.Sample(map[string]interface{}{"settings": set, "left out": without, "events": x.count()})
}
