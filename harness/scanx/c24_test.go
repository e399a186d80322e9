package scanx

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/gorilla/websocket"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	neutrinodws "github.com/vulpemventures/neutrino-elements/internal/interface/web-socket"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// loopback hands out addresses nobody else uses.
var loopbackNo atomic.Int64

func loopback() string {
	n := loopbackNo.Add(1)
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+pid%250, 1+(pid/250)%250, 1+n%250)
}

// place is what surrounds a daemon: a peer, an explorer and a database.
type place struct {
	c   *hx.Case
	w   *world
	top atomic.Int64 // height of the chain as the peer and the explorer know it

	peer   net.Listener
	peerAt string
	magic  hx.Magic // what the peer speaks
	mode   string   // how the peer behaves
	delay  int      // ms the peer takes for an answer, at most
	batch  int
	mu     sync.Mutex
	links  map[*link]bool
	down   bool
	known  int // links that have asked for headers

	exp      *http.Server
	expAt    string
	prefix   string // of the explorer's paths
	lose     func(cmd string) (not, end bool)
	fail     map[string]int // block -> requests that fail
	expCalls atomic.Int64
	expSlow  int

	pg *hx.PG
}

// link is a connection of the daemon with the peer.
type link struct {
	p    *place
	conn net.Conn
	wmu  sync.Mutex
	gone chan struct{}
}

func newPlace(c *hx.Case, w *world) *place {
	p := &place{c: c, w: w, magic: hx.Magics[w.chain.Net], batch: 2000, links: map[*link]bool{}, fail: map[string]int{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Errorf("peer: %v", err)
		c.Abort()
	}
	p.peer, p.peerAt = l, l.Addr().String()
	go p.accept()
	c.Cleanup(func() {
		l.Close()
		p.mu.Lock()
		p.down = true
		for x := range p.links {
			x.conn.Close()
		}
		p.mu.Unlock()
	})
	e, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Errorf("explorer: %v", err)
		c.Abort()
	}
	p.expAt = "http://" + e.Addr().String()
	p.exp = &http.Server{Handler: http.HandlerFunc(p.explore), ErrorLog: log.New(io.Discard, "", 0)}
	go p.exp.Serve(e)
	c.Cleanup(func() { p.exp.Close() })
	return p
}

func (p *place) view() *hx.Chain {
	return &hx.Chain{Net: p.w.chain.Net, Blks: p.w.chain.Blks[:p.top.Load()+1]}
}

func (p *place) explore(w http.ResponseWriter, r *http.Request) {
	p.expCalls.Add(1)
	at, ok := strings.CutPrefix(r.URL.Path, p.prefix)
	x := strings.Split(at, "/") // /block/hash/raw
	if !ok || len(x) != 4 || x[1] != "block" || x[3] != "raw" || r.Method != "GET" {
		p.c.Violate("malformed request to the explorer", "%s %s", r.Method, r.URL.Path)
		w.WriteHeader(400)
		return
	}
	p.mu.Lock()
	n := p.fail[x[2]]
	if n > 0 {
		p.fail[x[2]]--
	}
	slow := p.expSlow
	p.mu.Unlock()
	if slow > 0 {
		time.Sleep(ms(p.w.r, slow))
	}
	if n > 0 {
		p.c.Count("explorer failures", 1)
		switch n % 4 {
		case 0:
			w.WriteHeader(500)
		case 1:
			w.WriteHeader(404)
		case 2:
			panic(http.ErrAbortHandler)
		default:
			w.Write([]byte("busy"))
		}
		return
	}
	b := p.view().ByHash(hx.HashFromStr(x[2]))
	if b == nil || b.H.Height == 0 {
		w.WriteHeader(404)
		return
	}
	w.Write(b.Raw())
}

func (p *place) accept() {
	for {
		conn, err := p.peer.Accept()
		if err != nil {
			return
		}
		x := &link{p: p, conn: conn, gone: make(chan struct{})}
		p.mu.Lock()
		p.links[x] = true
		if p.down {
			conn.Close()
		}
		p.mu.Unlock()
		go x.serve()
	}
}

func (x *link) msg(cmd string, payload []byte) {
	x.wmu.Lock()
	defer x.wmu.Unlock()
	x.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
	x.p.mu.Lock()
	m := x.p.magic
	x.p.mu.Unlock()
	x.conn.Write(hx.Frame(m, cmd, payload))
}

func (x *link) serve() {
	p := x.p
	defer close(x.gone)
	defer x.conn.Close()
	var buf []byte
	tmp := make([]byte, 65536)
	for {
		n, err := x.conn.Read(tmp)
		if err != nil {
			p.c.Log("the peer's connection ends: %v", err)
			return
		}
		buf = append(buf, tmp[:n]...)
		for {
			m, rest, ok := hx.Take(buf)
			buf = rest
			if !ok {
				break
			}
			if err := m.Check(hx.Magics[p.w.chain.Net]); err != nil {
				p.c.Violate("message of another network", "the daemon sends %v", err)
				return
			}
			p.mu.Lock()
			mode, delay, batch := p.mode, p.delay, p.batch
			p.mu.Unlock()
			if delay > 0 {
				time.Sleep(ms(p.w.r, delay))
			}
			x.on(m, mode, batch)
		}
	}
}

func (x *link) on(m hx.Msg, mode string, batch int) {
	p := x.p
	if mode == "silent" || mode == "no answer to "+m.Cmd {
		return
	}
	p.mu.Lock()
	lose := p.lose
	p.mu.Unlock()
	if lose != nil {
		if not, end := lose(m.Cmd); end {
			x.conn.Close()
			return
		} else if not {
			return
		}
	}
	switch m.Cmd {
	case "version":
		v := hx.Version{Version: 70016, Services: 64 | 9, Time: time.Now().Unix(), RecvServices: 64, RecvIP: hx.V4(127, 0, 0, 1), RecvPort: 18886,
			FromServices: 64 | 9, FromIP: hx.V4(10, 0, 0, 1), FromPort: 18886, Nonce: 77, UserAgent: "/Elements Core:22.0/", StartHeight: int32(p.top.Load()), Relay: 1}
		x.msg("version", v.Payload())
		x.msg("verack", nil)
		if p.w.r.Intn(2) == 0 {
			x.msg("sendcmpct", append([]byte{0}, hx.U64(1)...))
			x.msg("feefilter", hx.U64(100))
		}
	case "ping":
		x.msg("pong", m.Payload)
	case "getheaders":
		g, err := hx.ParseGetHeaders(m.Payload)
		ch := p.view()
		if err != nil || len(g.Locator) == 0 {
			p.c.Violate("malformed getheaders", "%v: %x", err, m.Payload)
			return
		}
		for _, h := range g.Locator {
			if p.w.chain.ByHash(h) == nil {
				p.c.Violate("locator of another chain", "getheaders on %s: %v", p.w.chain.Net, h)
			}
		}
		p.mu.Lock()
		p.known++
		p.mu.Unlock()
		x.msg("headers", hx.HeadersPayload(ch.After(g.Locator, g.Stop, batch)))
	case "getcfilters":
		g, err := hx.ParseGetCFilters(m.Payload)
		if err != nil {
			p.c.Violate("malformed getcfilters", "%v: %x", err, m.Payload)
			return
		}
		ch := p.view()
		if b := ch.ByHash(g.Stop); b != nil {
			for i := g.Start; i <= b.H.Height; i++ {
				x.msg("cfilter", hx.CFilter{Type: g.Type, Block: ch.Blks[i].Hash, Filter: ch.Blks[i].Filter}.Payload())
			}
		}
	case "getdata":
		l, err := hx.ParseInv(m.Payload)
		if err != nil {
			p.c.Violate("malformed getdata", "%v: %x", err, m.Payload)
			return
		}
		for _, v := range l {
			if b := p.view().ByHash(v.Hash); b != nil && v.Type&0xff == 2 {
				x.msg("block", b.Raw())
			}
		}
	}
}

// mine makes the next blocks known, the daemon is told.
func (p *place) mine(to int64) {
	from := p.top.Load()
	if to <= from {
		return
	}
	p.top.Store(to)
	p.c.Log("blocks up to %d", to)
	p.mu.Lock()
	var l []*link
	for x := range p.links {
		l = append(l, x)
	}
	p.mu.Unlock()
	for _, x := range l {
		switch p.w.r.Intn(3) {
		case 0: // it asked to be told so
			x.msg("headers", hx.HeadersPayload(p.w.chain.After([]hx.Hash{p.w.chain.Blks[from].Hash}, p.w.chain.Blks[to].Hash, 2000)))
		case 1:
			var inv []hx.Inv
			for h := from + 1; h <= to; h++ {
				inv = append(inv, hx.Inv{Type: 2, Hash: p.w.chain.Blks[h].Hash})
			}
			x.msg("inv", hx.InvPayload(inv))
		default:
			x.msg("inv", hx.InvPayload([]hx.Inv{{Type: 2, Hash: p.w.chain.Blks[to].Hash}}))
		}
		if p.w.r.Intn(4) == 0 {
			x.msg("ping", hx.U64(uint64(to)))
		}
		if p.w.r.Intn(4) == 0 {
			x.msg("inv", hx.InvPayload([]hx.Inv{{Type: 1, Hash: hx.RandHash(p.w.r)}}))
		}
	}
}

// hungUp says whether the daemon's connections with the peer ended in time.
func (p *place) hungUp(d time.Duration) bool {
	p.mu.Lock()
	var l []*link
	for x := range p.links {
		l = append(l, x)
	}
	p.mu.Unlock()
	t := time.After(d)
	for _, x := range l {
		select {
		case <-x.gone:
		case <-t:
			return false
		}
	}
	return true
}

// process is a daemon.
type process struct {
	p    *place
	at   string
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	err  error

	lingering bool // a client has not finished its request: it may say so at the end
}

func (d *process) Write(b []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.out.Len() < 1<<20 {
		d.out.Write(b)
	}
	return len(b), nil
}

func (d *process) text() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.out.String()
}

func (p *place) settings(at string) map[string]string {
	return map[string]string{"NEUTRINOD_URL": at, "EXPLORER_URL": p.expAt, "PEER_URL": p.peerAt, "NETWORK": p.w.chain.Net, "LOG_LEVEL": fmt.Sprint(3 + p.w.r.Intn(3)),
		"DB_USER": "u", "DB_PASS": "p", "DB_HOST": "127.0.0.1", "DB_PORT": fmt.Sprint(p.pg.Port), "DB_NAME": "fake", "DB_MIGRATION_PATH": "file://" + repoDir() + "/internal/infrastructure/storage/db/pg/migration"}
}

func repoDir() string {
	if s := os.Getenv("HX_REPO"); s != "" {
		return s
	}
	return "/repo"
}

func (p *place) launch(set map[string]string) *process { return p.launchWith(set, nil) }

// launchWith starts a daemon that has other variables in its environment, too.
func (p *place) launchWith(set, other map[string]string) *process {
	d := &process{p: p, at: set["NEUTRINOD_URL"], done: make(chan struct{})}
	d.cmd = exec.Command(daemonExe)
	d.cmd.Dir = daemonDir
	d.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + daemonDir, "GOTRACEBACK=all", "GORACE=" + os.Getenv("GORACE")}
	for k, v := range set {
		d.cmd.Env = append(d.cmd.Env, "NEUTRINO_ELEMENTS_"+k+"="+v)
	}
	for k, v := range other {
		d.cmd.Env = append(d.cmd.Env, k+"="+v)
	}
	d.cmd.Stdout, d.cmd.Stderr = d, d
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := d.cmd.Start(); err != nil {
		p.c.Errorf("daemon: %v", err)
		p.c.Abort()
	}
	p.c.Count("daemons", 1)
	go func() { d.err = d.cmd.Wait(); close(d.done) }()
	p.c.Cleanup(func() {
		d.cmd.Process.Kill()
		<-d.done
	})
	return d
}

func (d *process) ended(t time.Duration) bool {
	select {
	case <-d.done:
		return true
	case <-time.After(t):
		return false
	}
}

const (
	promptly = 20 * time.Second // for ends
)

// for what must come
var patience = 60 * time.Second

// crashed looks for crashes in what the daemon printed. It prints its own stack
// when it ends with an error it tells.
func (d *process) crashed() {
	s := d.text()
	for _, m := range []string{"fatal error: ", "recovered handlePeerMessages", "http: panic serving", "[signal SIG", "panic recovered"} {
		if i := strings.Index(s, m); i >= 0 {
			d.p.c.Violate("daemon crashes", "%s", cut(s[i:], 3000))
			return
		}
	}
	if i := strings.Index(s, "panic: "); i >= 0 && !strings.Contains(s, "daemon noticed error while running") {
		d.p.c.Violate("daemon crashes", "%s", cut(s[i:], 3000))
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// signal ends the daemon, which must be done in time and without an error.
func (d *process) signal(s syscall.Signal) bool {
	c := d.p.c
	if !d.alive("") {
		return false
	}
	c.Log("%v", s)
	t0 := time.Now()
	d.cmd.Process.Signal(s)
	if !d.ended(promptly) {
		d.cmd.Process.Signal(syscall.SIGABRT)
		d.ended(5 * time.Second)
		c.Violate("daemon does not end", "%v did not end it in %v: %s", s, promptly, tail(d.text(), 4000))
		return false
	}
	c.Count("ends by signal", 1)
	c.Log("ended after %v", time.Since(t0).Round(100*time.Millisecond))
	d.crashed()
	if d.err != nil && !(d.lingering && strings.Contains(d.text(), context.DeadlineExceeded.Error())) {
		c.Violate("end not reported as such", "%v ends it with %v: %s", s, d.err, tail(d.text(), 2000))
		return false
	}
	return true
}

// linger connects to a daemon, and keeps it waiting for the rest of a request.
func linger(c *hx.Case, at string) bool {
	conn, err := net.DialTimeout("tcp", at, promptly)
	if err != nil {
		return false
	}
	c.Cleanup(func() { conn.Close() })
	text := "POST /neutrino/subscribe/http HTTP/1.1\r\nHost: x\r\nContent-Length: 500\r\n\r\n{\"actionType\""
	if c.Rand.Intn(3) == 0 {
		text = text[:1+c.Rand.Intn(len(text)-1)]
	}
	conn.Write([]byte(text))
	c.Count("half requests", 1)
	return true
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (d *process) alive(what string) bool {
	select {
	case <-d.done:
		d.crashed()
		d.p.c.Violate("daemon ends by itself", "%s%v: %s", what, d.err, tail(d.text(), 2000))
		return false
	default:
		return true
	}
}

// serving waits until the daemon serves.
func (d *process) serving() bool {
	for end := time.Now().Add(patience); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
		if !d.alive("while it starts: ") {
			return false
		}
		if conn, err := net.DialTimeout("tcp", d.at, time.Second); err == nil {
			conn.Close()
			return true
		}
	}
	d.p.c.Violate("daemon does not serve", "%v after its start nobody answers at its address: %s", patience, tail(d.text(), 3000))
	return false
}

// listener is somebody with subscriptions at a daemon.
type listener struct {
	inbox
	ds   []*desc
	hs   []int
	conn *websocket.Conn
	url  string // of the webhook
	wmu  sync.Mutex
}

func dialDaemon(c *hx.Case, at, name string) *listener {
	u := url.URL{Scheme: "ws", Host: at, Path: "/neutrino/subscribe/ws"}
	dl := websocket.Dialer{HandshakeTimeout: promptly}
	conn, _, err := dl.Dial(u.String(), nil)
	if err != nil {
		c.Violate("connection refused", "%s can't connect: %v", name, err)
		c.Abort()
	}
	x := &listener{inbox: inbox{c: c, name: name}, conn: conn}
	c.Cleanup(func() { conn.Close() })
	go func() {
		for {
			t, b, err := conn.ReadMessage()
			if err != nil {
				c.Log("%s ends: %v", name, err)
				x.mu.Lock()
				x.gone = time.Now()
				x.mu.Unlock()
				return
			}
			if t != websocket.TextMessage {
				c.Violate("malformed message", "%s gets a message of type %d", name, t)
			}
			x.put(b)
		}
	}()
	return x
}

func newWebhook(c *hx.Case, at, name string) *listener {
	x := &listener{inbox: inbox{c: c, name: name}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Errorf("webhook: %v", err)
		c.Abort()
	}
	x.url = "http://" + l.Addr().String() + "/hook"
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		if err == nil {
			x.put(b)
		}
	})}
	go srv.Serve(l)
	c.Cleanup(func() { srv.Close() })
	return x
}

// subscribe asks for a descriptor and reads the answer.
func (x *listener) subscribe(at string, d *desc, height int) bool {
	s := sub{"register", []string{"unspentUtxo"}, d.text, height, x.url}
	if x.conn == nil {
		cl := &http.Client{Timeout: promptly}
		resp, err := cl.Post("http://"+at+"/neutrino/subscribe/http", "application/json", bytes.NewReader(s.json()))
		if err != nil {
			x.c.Violate("no answer", "%s: %v", x.name, err)
			return false
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		if o := outcome(resp.StatusCode, b); o != "success" {
			x.c.Violate("valid request refused", "%s: %s", x.name, o)
			return false
		}
	} else {
		n := x.answers()
		x.wmu.Lock()
		err := x.conn.WriteMessage(websocket.TextMessage, s.json())
		x.wmu.Unlock()
		if err != nil {
			x.c.Violate("connection lost", "%s: %v", x.name, err)
			return false
		}
		for end := time.Now().Add(promptly); x.answers() == n; time.Sleep(20 * time.Millisecond) {
			if time.Now().After(end) {
				x.c.Violate("no answer", "%s waits for %v", x.name, promptly)
				return false
			}
		}
	}
	x.ds, x.hs = append(x.ds, d), append(x.hs, height)
	x.c.Count("subscriptions", 1)
	return true
}

func (x *listener) answers() (n int) {
	for _, m := range x.all(0) {
		if m.kind == "error" {
			x.c.Violate("valid request refused", "%s: %s", x.name, m.raw)
		}
		if m.kind != "event" {
			n++
		}
	}
	return
}

// due is what it must be told of the blocks up to a height.
func (x *listener) due(w *world, top int64) map[string]int {
	m := map[string]int{}
	for k, d := range x.ds {
		for h := int64(1); h <= top; h++ {
			if h < int64(x.hs[k]) {
				continue
			}
			b := w.chain.Blks[h]
			for i, t := range b.Txs {
				for _, s := range d.scripts {
					for _, o := range t.Outs {
						if string(o.Script) == string(s) {
							m["unspentUtxo "+b.IDs[i].String()]++
							break
						}
					}
				}
			}
		}
	}
	return m
}

// check compares what it was told with the chain; all of it must come if wanted.
func (x *listener) check(w *world, top int64, all bool) (n int) {
	due := x.due(w, top)
	var miss, extra []string
	seen := 0
	for end := time.Now().Add(patience); ; time.Sleep(50 * time.Millisecond) {
		miss, extra = diff(due, due, x.events())
		if n := x.count(); n > seen {
			seen, end = n, time.Now().Add(patience)
		}
		if !all || len(miss) == 0 || time.Now().After(end) || x.c.Failed() {
			break
		}
	}
	if len(extra) > 0 {
		x.c.Violate("event too many", "%s: %s", x.name, strings.Join(extra, "; "))
	}
	if all && len(miss) > 0 && !x.c.Failed() {
		x.c.Violate("event missed", "%s after %v: %s", x.name, patience, strings.Join(miss, "; "))
	}
	for _, k := range due {
		n += k
	}
	x.answers()
	return
}

var (
	daemonExe, daemonDir string
	signals              = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}
)

// calls counts what is asked of the stores of a daemon in this process.
type calls struct{ n atomic.Int64 }

type countH struct {
	repository.BlockHeaderRepository
	k *calls
}

func (h countH) ChainTip(c context.Context) (*block.Header, error) {
	h.k.n.Add(1)
	return h.BlockHeaderRepository.ChainTip(c)
}
func (h countH) GetBlockHashByHeight(c context.Context, n uint32) (*chainhash.Hash, error) {
	h.k.n.Add(1)
	return h.BlockHeaderRepository.GetBlockHashByHeight(c, n)
}
func (h countH) WriteHeaders(c context.Context, l ...block.Header) error {
	h.k.n.Add(1)
	return h.BlockHeaderRepository.WriteHeaders(c, l...)
}

type countF struct {
	repository.FilterRepository
	k *calls
}

func (f countF) PutFilter(c context.Context, e *repository.FilterEntry) error {
	f.k.n.Add(1)
	return f.FilterRepository.PutFilter(c, e)
}
func (f countF) GetFilter(c context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	f.k.n.Add(1)
	return f.FilterRepository.GetFilter(c, k)
}

func TestC24(t *testing.T) {
	hx.Main(t, "C24", "A case is a daemon with a peer, an explorer and a database around it: the real binary as a process (database emulated over its protocol, everything on loopback) or the server in this process. Chains grow while subscribers come, on both interfaces; it is ended by signals while it synchronizes and while it serves, killed, and started again on the same database; or it is started so that it cannot succeed. What the subscribers get is compared with the chain, ends are timed. Distinct by network, chain, subscriptions and ends.", func(r *hx.Run) {
		r.Require("daemons", "ends by signal", "subscriptions", "events due", "events", "events of past blocks", "webhook events", "liquid", "testnet", "regtest", "signals while synchronizing", "signals while serving", "signals while notifying", "kills", "starts on an old database", "starts that cannot succeed", "cancels while synchronizing", "cancels while serving", "explorer failures", "errors reported", "half requests")
		r.CaseTime(8 * time.Minute)
		r.Workers(14)
		daemonExe = os.Getenv("HX_DAEMON")
		var err error
		if _, err = os.Stat(daemonExe); err != nil {
			r.Error("no daemon to test: %v", err)
			return
		}
		if daemonDir, err = os.MkdirTemp("", "daemon"); err != nil {
			r.Error("scratch: %v", err)
			return
		}
		defer os.RemoveAll(daemonDir)

		prepare := func(c *hx.Case, blocks int) (*world, []*desc, *place) {
			w := newWorld(c, 1)
			c.Count(w.chain.Net, 1)
			ds := purse(c, 1+c.Rand.Intn(3))
			for i := 0; i < blocks; i++ {
				if blocks < 1000 || c.Rand.Intn(40) == 0 {
					w.payTo(ds)
				} else {
					w.mineTxs(nil, nil)
				}
			}
			p := newPlace(c, w)
			return w, ds, p
		}
		withPG := func(c *hx.Case, p *place) {
			pg, err := hx.NewPG()
			if err != nil {
				c.Errorf("pg: %v", err)
				c.Abort()
			}
			p.pg = pg
			c.Cleanup(func() {
				pg.Close()
				if u := pg.Unsupported(); len(u) > 0 {
					c.Errorf("the emulated database does not know: %v", u)
				}
			})
		}
		// subscribe makes subscribers at a daemon that serves.
		join := func(c *hx.Case, w *world, ds []*desc, at string, i int) *listener {
			var x *listener
			if c.Rand.Intn(3) == 0 {
				x = newWebhook(c, at, fmt.Sprintf("webhook %d", i))
			} else {
				x = dialDaemon(c, at, fmt.Sprintf("ws %d", i))
			}
			used := map[*desc]bool{}
			for n := 1 + c.Rand.Intn(2); n > 0; n-- {
				d := ds[c.Rand.Intn(len(ds))]
				if used[d] {
					continue
				}
				used[d] = true
				h := c.Rand.Intn(len(w.chain.Blks) + 1)
				if c.Rand.Intn(2) == 0 {
					h = 0
				}
				if !x.subscribe(at, d, h) {
					c.Abort()
				}
			}
			return x
		}
		tally := func(c *hx.Case, l []*listener, w *world, top int64, all bool) (n int) {
			for _, x := range l {
				k := x.check(w, top, all)
				n += k
				for _, v := range x.events() {
					c.Count("events", v)
					if x.conn == nil {
						c.Count("webhook events", v)
					}
				}
			}
			c.Count("events due", n)
			return
		}

		r.Cases("history", r.N(24, 600), func(c *hx.Case) {
			total := 2 + c.Rand.Intn(60)
			if c.Idx%24 == 7 {
				total = 2050 + c.Rand.Intn(100) // more than a message of headers
			}
			w, ds, p := prepare(c, total)
			withPG(c, p)
			first := 1 + c.Rand.Intn(total)
			if total > 2000 {
				first = total - c.Rand.Intn(20)
			}
			p.top.Store(int64(first))
			p.mu.Lock()
			p.batch = []int{2000, 2000, 1 + c.Rand.Intn(40)}[c.Rand.Intn(3)]
			if total > 2000 {
				p.batch = 2000
			}
			if c.Rand.Intn(3) == 0 && total < 100 {
				p.delay = 30
			}
			p.expSlow = c.Rand.Intn(3) * 50
			for _, b := range w.chain.Blks {
				if c.Rand.Intn(5) == 0 && total < 100 {
					p.fail[b.Hash.String()] = 1 + c.Rand.Intn(3)
				}
			}
			p.mu.Unlock()
			ends := ""
			gens := 1 + c.Rand.Intn(3)
			if total > 2000 {
				gens = 1
			}
			due := 0
			for g := 0; g < gens && !c.Failed(); g++ {
				if g > 0 {
					c.Count("starts on an old database", 1)
				}
				d := p.launch(p.settings(loopback() + ":8000"))
				if g < gens-1 && c.Rand.Intn(3) == 0 { // ends while it starts
					time.Sleep(ms(c.Rand, 2000))
					if c.Rand.Intn(2) == 0 {
						c.Count("kills", 1)
						ends += " killed early"
						d.cmd.Process.Kill()
						<-d.done
					} else {
						ends += " ended early"
						if !d.early(signals[c.Rand.Intn(3)]) {
							return
						}
					}
					p.mine(min(int64(total), p.top.Load()+int64(c.Rand.Intn(5))))
					continue
				}
				if !d.serving() {
					return
				}
				var l []*listener
				var mu sync.Mutex
				var wg sync.WaitGroup
				goal := p.top.Load() + int64(c.Rand.Intn(total+1-int(p.top.Load())))
				if g == gens-1 {
					goal = int64(total)
				}
				wg.Add(1)
				go func() { // the chain grows meanwhile
					defer wg.Done()
					for p.top.Load() < goal && !c.Failed() {
						time.Sleep(ms(c.Rand, 400))
						p.mine(min(goal, p.top.Load()+1+int64(c.Rand.Intn(4)/3)+int64(total/40)))
					}
				}()
				for i := 1 + c.Rand.Intn(4); i > 0; i-- {
					time.Sleep(ms(c.Rand, 500))
					top := p.top.Load()
					x := join(c, w, ds, d.at, i)
					if len(x.due(w, top)) > 0 {
						c.Count("events of past blocks", 1)
					}
					mu.Lock()
					l = append(l, x)
					mu.Unlock()
				}
				sig := signals[c.Rand.Intn(3)]
				if c.Rand.Intn(3) == 0 {
					d.lingering = linger(c, d.at)
				}
				if g < gens-1 && c.Rand.Intn(2) == 0 { // in the middle of it
					time.Sleep(ms(c.Rand, 1500))
					if c.Rand.Intn(3) == 0 {
						c.Count("kills", 1)
						d.cmd.Process.Kill()
						<-d.done
						ends += " killed"
					} else if d.signal(sig) {
						c.Count("signals while notifying", 1)
						ends += " ended while notifying"
					}
					wg.Wait()
					due += tally(c, l, w, p.top.Load(), false)
				} else {
					wg.Wait()
					due += tally(c, l, w, p.top.Load(), true)
					if c.Failed() {
						c.Log("daemon: %s", tail(d.text(), 3000))
						return
					}
					if c.Rand.Intn(2) == 0 { // nothing more comes
						time.Sleep(time.Second)
						due += tally(c, l, w, p.top.Load(), true)
					}
					if d.signal(sig) {
						c.Count("signals while serving", 1)
						ends += " ended"
					}
				}
				for _, x := range l {
					for end := time.Now().Add(5 * time.Second); x.conn != nil && x.ended().IsZero(); time.Sleep(20 * time.Millisecond) {
						if time.Now().After(end) {
							c.Violate("connection left open", "%s is still connected", x.name)
							break
						}
					}
				}
			}
			if due > 0 {
				c.Sig("%s, %d of %d blocks, batches of %d, %d due,%s", w.chain.Net, first, total, p.batch, due, ends)
			}
		})

		// signals while it synchronizes
		r.Cases("synchronizing", r.N(16, 300), func(c *hx.Case) {
			w, _, p := prepare(c, 1+c.Rand.Intn(200))
			withPG(c, p)
			p.top.Store(int64(w.chain.Height()))
			modes := []string{"silent", "no answer to version", "no answer to getheaders", "no answer to getcfilters", "slow", "slow", "of another network", "hangs up"}
			p.mu.Lock()
			p.mode = modes[c.Idx%len(modes)]
			switch p.mode {
			case "slow":
				p.delay, p.batch = 100, 1+c.Rand.Intn(4)
			case "of another network":
				for n, m := range hx.Magics {
					if n != w.chain.Net {
						p.magic = m
					}
				}
			case "hangs up":
				p.down = true
			}
			p.mu.Unlock()
			d := p.launch(p.settings(loopback() + ":8000"))
			wait := ms(c.Rand, 3000)
			time.Sleep(wait)
			sig := signals[c.Rand.Intn(3)]
			select {
			case <-d.done: // it may tell that its peer is of no use
				if p.mode != "hangs up" {
					d.alive("while it synchronizes: ")
				}
				d.crashed()
			default:
				if !d.early(sig) {
					return
				}
			}
			c.Count("signals while synchronizing", 1)
			if p.mode == "of another network" && len(p.pg.Rows("block_header")) > 0 {
				c.Violate("headers of another network", "%d headers are stored", len(p.pg.Rows("block_header")))
			}
			c.Sig("%s, %s, %v, after %v", w.chain.Net, p.mode, sig, wait)
		})

		// starts that cannot succeed
		r.Cases("cannot start", r.N(16, 200), func(c *hx.Case) {
			w, _, p := prepare(c, 1+c.Rand.Intn(20))
			withPG(c, p)
			p.top.Store(int64(w.chain.Height()))
			set := p.settings(loopback() + ":8000")
			whys := []string{"peer", "address", "network", "database", "migrations", "database fails", "peer's name", "address of another"}
			why := whys[c.Idx%len(whys)]
			switch why {
			case "peer":
				set["PEER_URL"] = loopback() + ":1"
			case "peer's name":
				set["PEER_URL"] = []string{"localhost", "localhost:none", "127.0.0.1:99999", ":", "x y:1"}[c.Rand.Intn(5)]
			case "address":
				l, err := net.Listen("tcp", set["NEUTRINOD_URL"])
				if err != nil {
					c.Errorf("listen: %v", err)
					return
				}
				defer l.Close()
			case "address of another":
				set["NEUTRINOD_URL"] = []string{"192.0.2.1:8000", "127.0.0.1:99999", "127.0.0.1"}[c.Rand.Intn(3)]
			case "network":
				set["NETWORK"] = []string{"bitcoin", "mainnet", "Liquid", "reg test", "liquidv1"}[c.Rand.Intn(5)]
			case "database":
				p.pg.SetDown(true)
			case "migrations":
				set["DB_MIGRATION_PATH"] = []string{"file:///nonexistent", "nonsense", "http://x"}[c.Rand.Intn(3)]
			case "database fails":
				p.pg.SetFault(func(kind, sql string) hx.PGAct { return hx.PGAct{Code: "53100"} })
			}
			d := p.launch(set)
			if !d.ended(promptly + 5*time.Second) {
				d.cmd.Process.Signal(syscall.SIGABRT)
				d.ended(5 * time.Second)
				c.Violate("start hangs", "%s: %v: %s", why, set, tail(d.text(), 4000))
				return
			}
			d.crashed()
			if d.err == nil || len(strings.TrimSpace(d.text())) == 0 {
				c.Violate("start does not fail", "%s %v ends with %v and %q", why, set, d.err, d.text())
				return
			}
			c.Count("starts that cannot succeed", 1)
			c.Sig("%s %s", w.chain.Net, why)
		})

		// the server in this process, with the race detector
		r.Cases("server", r.N(40, 800), func(c *hx.Case) {
			w, ds, p := prepare(c, 1+c.Rand.Intn(60))
			first := 1 + c.Rand.Intn(int(w.chain.Height()))
			p.top.Store(int64(first))
			modes := []string{"", "", "", "", "slow", "silent", "no answer to getheaders", "no peer", "address", "address"}
			p.mu.Lock()
			p.mode = modes[c.Idx%len(modes)]
			if p.mode == "slow" {
				p.delay, p.batch = 60, 1+c.Rand.Intn(6)
			}
			p.mu.Unlock()
			at, peerAt := loopback()+":8000", p.peerAt
			if p.mode == "no peer" {
				peerAt = loopback() + ":1"
			}
			var taken net.Listener
			if p.mode == "address" {
				var err error
				if taken, err = net.Listen("tcp", at); err != nil {
					c.Errorf("listen: %v", err)
					return
				}
				defer taken.Close()
			}
			k := &calls{}
			srv, err := neutrinodws.NewElementsNeutrinoServer(node.NodeConfig{Network: w.chain.Net, UserAgent: "/x:1/", BlockHeadersDB: countH{inmemory.NewHeaderInmemory(), k}, FiltersDB: countF{inmemory.NewFilterInmemory(), k}},
				blockservice.NewEsploraBlockService(p.expAt), peerAt, at)
			if err != nil {
				c.Violate("server not made", "%v", err)
				return
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var stops atomic.Int64
			ret := make(chan (<-chan error), 1)
			go func() { ret <- srv.Start(ctx, func() { stops.Add(1); cancel() }) }()
			var errC <-chan error
			returned := func(d time.Duration) bool {
				if errC != nil {
					return true
				}
				select {
				case errC = <-ret:
					return true
				case <-time.After(d):
					return false
				}
			}
			var l []*listener
			when := "at once"
			switch p.mode {
			case "no peer":
				if !returned(promptly) {
					c.Violate("start hangs", "with nobody at %s", peerAt)
					return
				}
				select {
				case err, ok := <-errC:
					if !ok || err == nil {
						c.Violate("start does not fail", "%v with nobody at %s", err, peerAt)
					}
					c.Count("errors reported", 1)
				case <-time.After(promptly):
					c.Violate("start does not fail", "no error with nobody at %s", peerAt)
				}
				c.Sig("no peer %s", w.chain.Net)
				return
			case "address":
				if c.Rand.Intn(3) == 0 {
					when = "cancelled when it finds its address taken"
					for end := time.Now().Add(patience); !returned(0) && time.Now().Before(end); {
						time.Sleep(time.Microsecond)
					}
				} else if returned(patience) {
					select {
					case err, ok := <-errC:
						if !ok || err == nil {
							c.Violate("start does not fail", "%v with %s in use", err, at)
						}
						c.Count("errors reported", 1)
					case <-time.After(promptly):
						c.Violate("start does not fail", "no error with %s in use", at)
					}
				}
				if errC == nil {
					c.Violate("daemon does not serve", "Start does not return")
					return
				}
			case "", "slow":
				if p.mode == "slow" && c.Rand.Intn(2) == 0 || c.Rand.Intn(4) == 0 {
					wait := ms(c.Rand, 1500)
					when = fmt.Sprintf("after %v", wait)
					returned(wait)
					break
				}
				if !returned(patience) {
					c.Violate("daemon does not serve", "Start does not return")
					return
				}
				if c.Rand.Intn(5) == 0 {
					break
				}
				when = "while serving"
				up := false
				for end := time.Now().Add(promptly); !up && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
					if conn, err := net.Dial("tcp", at); err == nil {
						up = true
						conn.Close()
					}
				}
				if !up {
					c.Violate("daemon does not serve", "Start returned and nobody answers")
					return
				}
				for i := 1 + c.Rand.Intn(4); i > 0; i-- {
					l = append(l, join(c, w, ds, at, i))
				}
				for p.top.Load() < int64(w.chain.Height()) && c.Rand.Intn(5) > 0 && !c.Failed() {
					p.mine(min(int64(w.chain.Height()), p.top.Load()+1+int64(c.Rand.Intn(10))))
					time.Sleep(ms(c.Rand, 100))
				}
				if c.Rand.Intn(3) > 0 {
					when = "when all is told"
					tally(c, l, w, p.top.Load(), true)
				}
			default: // it cannot be synchronized
				wait := ms(c.Rand, 2500)
				when = fmt.Sprintf("after %v", wait)
				if returned(wait) {
					c.Violate("start succeeds", "though the peer: %s", p.mode)
					return
				}
			}
			if c.Failed() {
				return
			}
			serving := errC != nil
			lingering := serving && c.Rand.Intn(3) == 0 && linger(c, at)
			if lingering {
				time.Sleep(ms(c.Rand, 300))
			}
			t0 := time.Now()
			c.Log("cancel %s", when)
			cancel()
			if !returned(promptly) {
				c.Violate("start hangs", "%v after the cancel (%s) Start has not returned", promptly, when)
				return
			}
			for open := true; open; {
				var err error
				select {
				case err, open = <-errC:
					if open && p.mode != "address" && !(lingering && errors.Is(err, context.DeadlineExceeded)) {
						c.Violate("end not reported as such", "%s, cancelled %s: %v", p.mode, when, err)
					}
				case <-time.After(promptly - time.Since(t0)):
					c.Violate("daemon does not end", "%s: the error channel is not closed %v after the cancel (%s)", p.mode, time.Since(t0), when)
					return
				}
			}
			c.Log("ended after %v", time.Since(t0).Round(10*time.Millisecond))
			if serving {
				c.Count("cancels while serving", 1)
			} else {
				c.Count("cancels while synchronizing", 1)
			}
			if !p.hungUp(5 * time.Second) {
				c.Violate("connection left open", "the daemon stays connected with its peer after the end")
			}
			if p.mode != "address" {
				if conn, err := net.DialTimeout("tcp", at, time.Second); err == nil {
					conn.Close()
					c.Violate("serves after its end", "%s still answers", at)
				}
			}
			for _, x := range l {
				for end := time.Now().Add(5 * time.Second); x.conn != nil && x.ended().IsZero(); time.Sleep(5 * time.Millisecond) {
					if time.Now().After(end) {
						c.Violate("connection left open", "%s is still connected", x.name)
						break
					}
				}
			}
			if stops.Load() == 0 {
				c.Violate("end not reported as such", "stop was not called")
			}
			time.Sleep(time.Second)
			n, e := k.n.Load(), p.expCalls.Load()
			ev := 0
			for _, x := range l {
				ev += x.count()
			}
			time.Sleep(1500 * time.Millisecond)
			if a, b := k.n.Load(), p.expCalls.Load(); a > n+1 || b > e+1 {
				c.Violate("goes on after its end", "%d store calls, %d blocks fetched long after the end", a-n, b-e)
			}
			tally(c, l, w, p.top.Load(), false)
			c.Sig("%s %s %d/%d %s %d", w.chain.Net, p.mode, first, w.chain.Height(), when, len(l))
		})
	})
}

// early ends a daemon by a signal that may be still loading (then the signal
// ends it as the system does).
func (d *process) early(s syscall.Signal) bool {
	c := d.p.c
	c.Log("%v", s)
	d.cmd.Process.Signal(s)
	if !d.ended(promptly) {
		d.cmd.Process.Signal(syscall.SIGABRT)
		d.ended(5 * time.Second)
		c.Violate("daemon does not end", "%v did not end it in %v while it starts: %s", s, promptly, tail(d.text(), 4000))
		return false
	}
	c.Count("ends by signal", 1)
	out := d.text()
	var x *exec.ExitError
	if errors.As(d.err, &x) {
		ws := x.Sys().(syscall.WaitStatus)
		if ws.Signaled() && ws.Signal() == s || strings.Contains(out, "SIGQUIT: quit") {
			c.Count("ends by signal before it listens for it", 1)
			return true
		}
	}
	d.crashed()
	if d.err != nil {
		c.Violate("end not reported as such", "%v ends it with %v: %s", s, d.err, tail(out, 2000))
		return false
	}
	return true
}
