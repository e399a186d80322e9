package clix

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

const uid = 61234 // nobody knows it: the home directory is what the environment says

var (
	root   string // readable by the user above
	client string
)

// user is somebody with a home directory who runs the client.
type user struct {
	c    *hx.Case
	home string
}

func newUser(c *hx.Case) *user {
	u := &user{c, filepath.Join(root, fmt.Sprintf("%s-%d", c.Group, c.Idx))}
	if err := os.MkdirAll(u.home, 0o755); err != nil {
		c.Errorf("home: %v", err)
		c.Abort()
	}
	os.Chown(u.home, uid, uid)
	c.Cleanup(func() { os.RemoveAll(u.home) })
	return u
}

func (u *user) command(ctx context.Context, exe string, args ...string) *exec.Cmd {
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Env = []string{"HOME=" + u.home, "USER=somebody", "PATH=/usr/bin:/bin", "GOTRACEBACK=all"}
	cmd.Dir = u.home
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid}}
	return cmd
}

// run runs the client to its end.
func (u *user) run(args ...string) (out string, ok bool) { return u.runWith(-1, args...) }

// runWith runs the client with a limit for the size of files, in blocks of 512 bytes.
func (u *user) runWith(limit int, args ...string) (out string, ok bool) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	cmd := u.command(ctx, client, args...)
	if limit >= 0 {
		cmd = u.command(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf(`trap "" XFSZ; ulimit -f %d; exec "$0" "$@"`, limit), client}, args...)...)
	}
	b, err := cmd.CombinedOutput()
	u.c.Log("%q -> %q %v", args, b, err)
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		u.c.Errorf("%v: %v", args, err)
		u.c.Abort()
	}
	if ctx.Err() != nil {
		u.c.Violate("no end", "%q does not end", args)
	}
	u.crashed(args, string(b))
	return string(b), err == nil
}

func (u *user) crashed(args []string, out string) {
	if strings.Contains(out, "goroutine ") && (strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ")) {
		u.c.Violate("client crashes", "%q: %s", args, out)
	}
}

// state is the file the settings are in: the one there is.
func (u *user) state() (path string, content []byte) {
	filepath.WalkDir(u.home, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() && (path == "" || strings.HasSuffix(p, "state.json")) {
			path = p
		}
		return nil
	})
	content, _ = os.ReadFile(path)
	return
}

// shows compares what the client prints of its settings with the model.
func (u *user) shows(want map[string]string) {
	out, ok := u.run("config", "print")
	if want == nil {
		if ok && strings.TrimSpace(out) != "" {
			u.c.Violate("settings out of nowhere", "nothing was set and the client prints %q", out)
		}
		return
	}
	if !ok {
		u.c.Violate("settings not shown", "%q instead of %q", out, want)
		return
	}
	var l []string
	for k, v := range want {
		l = append(l, k+": "+v)
	}
	if !sameLines(out, strings.Join(l, "\n")) {
		u.c.Violate("other settings shown", "%q instead of %q", out, want)
	}
}

// sameLines: the order of the settings is not given.
func sameLines(a, b string) bool {
	x, y := strings.Split(strings.TrimSuffix(a, "\n"), "\n"), strings.Split(b, "\n")
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "\n") == strings.Join(y, "\n")
}

var odd = []string{"localhost:8000", "/neutrino/subscribe/ws", "a b", "ünï©ödé 漢字", `say "hi"`, `back\slash`, "a=b", "a: b", "<&>", "100%s%d", "'", "tab\there", "line\nbreak", "null", "{}", "0", "true", "\u2028", "\x7f", " ", "a,b", "~", "$HOME", "*"}

func text(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return odd[r.Intn(len(odd))]
	case 1:
		return odd[r.Intn(len(odd))] + odd[r.Intn(len(odd))]
	case 2:
		return strings.Repeat("long ", r.Intn(200)) + "end"
	}
	return fmt.Sprintf("x%d", r.Intn(1000))
}

func key(r *rand.Rand) string {
	if r.Intn(3) > 0 {
		return []string{"url", "path", "k", "K", "key", "url2", "Url", "päth"}[r.Intn(8)]
	}
	return text(r)
}

func copyOf(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// script is what the fake daemon does with a connection.
type script struct {
	mu       sync.Mutex
	conns    int
	requests [][]byte
	serve    func(c *websocket.Conn)
	pong     chan struct{}
	refuse   int
}

type daemon struct {
	addr    string
	scripts sync.Map
}

func newDaemon() *daemon {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	d := &daemon{addr: l.Addr().String()}
	go http.Serve(l, d)
	return d
}

func (d *daemon) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	x, ok := d.scripts.Load(r.URL.RequestURI())
	if !ok {
		w.WriteHeader(404)
		return
	}
	s := x.(*script)
	s.mu.Lock()
	s.conns++
	s.mu.Unlock()
	if s.refuse > 0 {
		w.WriteHeader(s.refuse)
		return
	}
	c, err := (&websocket.Upgrader{}).Upgrade(w, r, nil)
	if err != nil {
		return
	}
	defer c.Close()
	c.SetReadDeadline(time.Now().Add(time.Minute))
	t, b, err := c.ReadMessage()
	if err != nil {
		return
	}
	if t != websocket.TextMessage {
		b = append([]byte("not a text: "), b...)
	}
	s.mu.Lock()
	s.requests = append(s.requests, b)
	s.mu.Unlock()
	c.SetPongHandler(func(string) error { s.pong <- struct{}{}; return nil })
	go func() {
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.requests = append(s.requests, b)
			s.mu.Unlock()
		}
	}()
	s.serve(c)
}

// screen is what the client prints, as it prints it.
type screen struct {
	mu   sync.Mutex
	cond *sync.Cond
	buf  bytes.Buffer
	done bool
}

func (s *screen) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cond.Broadcast()
	return s.buf.Write(b)
}

func (s *screen) text() string { s.mu.Lock(); defer s.mu.Unlock(); return s.buf.String() }

// find looks for a text from a place on; it may be quoted.
func (s *screen) find(text string, from int) int {
	all := s.text()
	if from > len(all) {
		return -1
	}
	q := strconv.Quote(text)
	best := -1
	for _, t := range []string{text, q[1 : len(q)-1]} {
		if i := strings.Index(all[from:], t); i >= 0 && (best < 0 || from+i+len(t) < best) {
			best = from + i + len(t)
		}
	}
	return best
}

func words(r *rand.Rand) string {
	return fmt.Sprintf("%s %d %s", []string{"successfully registered", "bad request", `no "such" thing`, "50%s", "a: b", "ünï"}[r.Intn(6)], r.Int63(), []string{"", "x", "end."}[r.Intn(3)])
}

func TestC26(t *testing.T) {
	hx.Main(t, "C26", "A case is a user of the client with a home directory of its own, as processes: a sequence of configuration commands with odd keys and values, damaged or unwritable state, full disks, kills and commands at once, compared with a model; or a subscription with random flags to a recording daemon that sends random messages and ends the connection in several ways. Distinct by commands and messages.", func(r *hx.Run) {
		r.Require("settings saved", "settings shown", "refused commands", "full disk", "kills", "commands at once", "damaged state", "unwritable state", "unreadable state", "subscriptions", "events shown", "errors shown", "messages shown", "wrong flags", "long subscriptions", "long messages", "no daemon", "daemon that refuses")
		client = os.Getenv("HX_CLIENT")
		var err error
		if root, err = os.MkdirTemp("/tmp", "clix"); err != nil {
			r.Error("scratch: %v", err)
			return
		}
		defer os.RemoveAll(root)
		os.Chmod(root, 0o755)
		b, err := os.ReadFile(client)
		if err != nil {
			r.Error("no client to test: %v", err)
			return
		}
		client = filepath.Join(root, "neutrino")
		if err := os.WriteFile(client, b, 0o755); err != nil {
			r.Error("client: %v", err)
			return
		}
		r.CaseTime(3 * time.Minute)
		d := newDaemon()

		r.Cases("config", r.N(400, 4000), func(c *hx.Case) {
			u := newUser(c)
			var m map[string]string
			set := func(kv ...string) {
				if m == nil {
					m = map[string]string{}
				}
				for i := 0; i < len(kv); i += 2 {
					m[kv[i]] = kv[i+1]
				}
				c.Count("settings saved", 1)
			}
			var seq []string
			for n := 3 + c.Rand.Intn(14); n > 0 && !c.Failed(); n-- {
				var args []string
				want := true
				switch k := c.Rand.Intn(12); {
				case k == 0:
					args = []string{"config"}
					set("url", "localhost:8000", "path", "/neutrino/subscribe/ws")
				case k == 1:
					v := text(c.Rand)
					args = []string{"config", "--url", v}
					set("url", v, "path", "/neutrino/subscribe/ws")
				case k == 2:
					v, w := text(c.Rand), text(c.Rand)
					args = []string{"config", "--url=" + v, "--path=" + w}
					set("url", v, "path", w)
				case k == 3:
					args, want = []string{"config", "set"}, false
				case k == 4:
					args, want = []string{"config", "set", key(c.Rand)}, false
				case k == 5:
					args, want = []string{"config", "--what", "x"}, false
				default:
					a, b := key(c.Rand), text(c.Rand)
					if c.Rand.Intn(10) == 0 {
						b = "-" + b
					}
					if c.Rand.Intn(10) == 0 {
						b = ""
					}
					args = []string{"config", "set", a, b}
					set(a, b)
				}
				seq = append(seq, fmt.Sprintf("%q", args))
				_, ok := u.run(args...)
				if ok != want {
					c.Violate(map[bool]string{true: "valid command fails", false: "invalid command succeeds"}[want], "%q", args)
				}
				if !want {
					c.Count("refused commands", 1)
				}
				if !want || c.Rand.Intn(2) == 0 {
					u.shows(m)
					c.Count("settings shown", len(m))
				}
			}
			u.shows(m)
			c.Sig("%s", strings.Join(seq, " "))
		})

		// settle gives the user settings that take some room.
		settle := func(c *hx.Case, u *user) map[string]string {
			m := map[string]string{"url": "localhost:8000", "path": "/neutrino/subscribe/ws"}
			u.run("config")
			for n := c.Rand.Intn(4); n > 0; n-- {
				k, v := fmt.Sprintf("key%d", n), strings.Repeat("v", c.Rand.Intn(1500))
				m[k] = v
				u.run("config", "set", k, v)
			}
			u.shows(m)
			return m
		}
		// either: the settings are as they were or as asked for.
		either := func(c *hx.Case, u *user, how string, before, after map[string]string) map[string]string {
			out, ok := u.run("config", "print")
			for _, m := range []map[string]string{before, after} {
				var l []string
				for k, v := range m {
					l = append(l, k+": "+v)
				}
				if ok && sameLines(out, strings.Join(l, "\n")) {
					return m
				}
			}
			c.Violate("settings lost: "+how, "the client prints %q (%v), the settings were %q and %q was asked for", out, ok, before, after)
			return nil
		}

		r.Cases("full disk", r.N(100, 1000), func(c *hx.Case) {
			u := newUser(c)
			m := settle(c, u)
			for n := 3; n > 0 && !c.Failed(); n-- {
				after := copyOf(m)
				k, v := []string{"url", "new", "key1"}[c.Rand.Intn(3)], strings.Repeat("w", c.Rand.Intn(2000))
				after[k] = v
				_, content := u.state()
				_, ok := u.runWith(c.Rand.Intn(len(content)/512+3), "config", "set", k, v)
				if ok {
					m = after
					u.shows(m)
				} else {
					c.Count("full disk", 1)
					u.shows(m)
				}
			}
			c.Sig("%d %v", c.Idx, len(m))
		})

		r.Cases("kill", r.N(150, 1500), func(c *hx.Case) {
			u := newUser(c)
			m := settle(c, u)
			for n := 6; n > 0 && !c.Failed(); n-- {
				after := copyOf(m)
				k, v := []string{"url", "new", "key1"}[c.Rand.Intn(3)], strings.Repeat("w", c.Rand.Intn(3000))
				after[k] = v
				ctx, cancel := context.WithCancel(context.Background())
				cmd := u.command(ctx, client, "config", "set", k, v)
				if err := cmd.Start(); err != nil {
					c.Errorf("start: %v", err)
					cancel()
					return
				}
				if c.Rand.Intn(3) == 0 {
					time.Sleep(time.Duration(c.Rand.Intn(12000)) * time.Microsecond)
				} else {
					// as soon as something happens to the state
					p, _ := u.state()
					was, _ := os.Stat(p)
					for end := time.Now().Add(time.Second); time.Now().Before(end); {
						if is, err := os.Stat(p); err != nil || is.Size() != was.Size() || is.ModTime() != was.ModTime() {
							break
						}
					}
				}
				cmd.Process.Kill()
				err := cmd.Wait()
				cancel()
				if err != nil {
					c.Count("kills", 1)
				}
				m = either(c, u, "killed", m, after)
			}
			c.Sig("%d", c.Idx)
		})

		r.Cases("at once", r.N(40, 600), func(c *hx.Case) {
			u := newUser(c)
			m := settle(c, u)
			var wg sync.WaitGroup
			n := 2 + c.Rand.Intn(6)
			for i := 0; i < n; i++ {
				wg.Add(1)
				c.Go(func() {
					defer wg.Done()
					u.run("config", "set", fmt.Sprintf("at once %d", i), strings.Repeat("z", c.Rand.Intn(800)))
				})
			}
			wg.Wait()
			c.Count("commands at once", n)
			out, ok := u.run("config", "print")
			for k, v := range m {
				if !ok || !strings.Contains("\n"+out, "\n"+k+": "+v+"\n") {
					c.Violate("settings lost: commands at once", "%s is missing: %q", k, out)
					break
				}
			}
			c.Sig("%d", c.Idx)
		})

		r.Cases("damaged", r.N(80, 600), func(c *hx.Case) {
			u := newUser(c)
			m := settle(c, u)
			p, content := u.state()
			how := []string{"garbage", "truncated", "array", "read only", "directory", "unreadable"}[c.Rand.Intn(6)]
			switch how {
			case "garbage":
				content = []byte([]string{"what is this?", "x", "{", "7", "[]", " ", "\x00", "\"\"", `{"url":5}`, string(content) + "}", string(content) + string(content)}[c.Rand.Intn(11)])
			case "truncated":
				content = content[:1+c.Rand.Intn(len(content)-1)]
			case "array":
				content = []byte(`["url","path"]`)
			case "read only":
				os.Chmod(p, 0o400)
				os.Chmod(filepath.Dir(p), 0o500)
				c.Count("unwritable state", 1)
			case "unreadable":
				os.Chmod(p, 0)
				c.Count("unreadable state", 1)
			case "directory":
				os.Remove(p)
				os.Mkdir(p, 0o755)
				os.Chown(p, uid, uid)
			}
			if how == "garbage" || how == "truncated" || how == "array" {
				os.WriteFile(p, content, 0o644)
				c.Count("damaged state", 1)
			}
			cmd := [][]string{{"config", "set", "k", "v"}, {"config"}, {"config", "--url", "x"}}[c.Rand.Intn(3)]
			if _, ok := u.run(cmd...); ok {
				c.Violate("command succeeds where it cannot", "%q with the state %s", cmd, how)
			}
			switch how {
			case "read only":
				u.shows(m)
			case "unreadable":
				if out, ok := u.run("config", "print"); ok {
					c.Violate("unreadable settings shown", "%q", out)
				}
			case "directory":
				if st, err := os.Stat(p); err != nil || !st.IsDir() {
					c.Violate("failing command changes something", "%q with the state %s", cmd, how)
				}
			default:
				if _, now := u.state(); !bytes.Equal(now, content) {
					c.Violate("failing command changes something", "%q makes %q of %q", cmd, now, content)
				}
				if out, ok := u.run("config", "print"); ok {
					c.Violate("damaged settings shown", "%q", out)
				}
			}
			if out, ok := u.run("subscribe", "--descriptor", "x", "--block_height", "0"); ok && how != "read only" {
				c.Violate("invalid command succeeds", "subscribe with the state %s: %q", how, out)
			}
			if how == "unreadable" {
				os.Chmod(p, 0o600)
				u.shows(m)
			}
			os.Chmod(filepath.Dir(p), 0o755)
			c.Sig("%s %q %d", how, cmd, len(content))
		})

		r.Cases("subscribe", r.N(300, 3000), func(c *hx.Case) {
			u := newUser(c)
			path := fmt.Sprintf("/case%d/%s", c.Idx, []string{"ws", "neutrino/subscribe/ws", ""}[c.Rand.Intn(3)])
			u.run("config", "--url", d.addr, "--path", path)
			s := &script{pong: make(chan struct{}, 100)}
			d.scripts.Store(path, s)
			defer d.scripts.Delete(path)
			desc := []string{"elwpkh(02aa)", "wpkh([d34db33f/84'/0'/0']xpub/0/*)#abcd", text(c.Rand)}[c.Rand.Intn(3)]
			height := []int64{0, 1, int64(c.Rand.Intn(1e6)), 1 << 40, -1}[c.Rand.Intn(5)]
			var events []string
			args := []string{"subscribe", "--descriptor=" + desc, fmt.Sprintf("--block_height=%d", height)}
			for n := c.Rand.Intn(3); n > 0; n-- {
				events = append(events, []string{"unspentUtxo", "spentUtxo", "what"}[c.Rand.Intn(3)])
			}
			for _, e := range events {
				args = append(args, "--events", e)
			}
			sc := &screen{}
			sc.cond = sync.NewCond(&sc.mu)
			type told struct{ kind, text string }
			var sent []told
			served := make(chan struct{})
			end := c.Rand.Intn(4)
			step := c.Rand.Intn(2) == 0
			s.serve = func(conn *websocket.Conn) {
				defer close(served)
				at := 0
				n := c.Rand.Intn(12)
				if c.Rand.Intn(25) == 0 {
					n = 100 + c.Rand.Intn(400)
					c.Count("long subscriptions", 1)
				}
				for ; n > 0; n-- {
					var m told
					var v interface{}
					switch c.Rand.Intn(3) {
					case 0:
						m = told{"events shown", hx.RandHash(c.Rand).String()}
						v = map[string]string{"eventType": "unspentUtxo", "txId": m.text}
					case 1:
						m = told{"messages shown", words(c.Rand)}
						if c.Rand.Intn(20) == 0 {
							m.text = strings.Repeat("long ", 1+c.Rand.Intn(30000)) + m.text
							c.Count("long messages", 1)
						}
						v = map[string]string{"message": m.text}
					default:
						m = told{"errors shown", words(c.Rand)}
						v = map[string]string{"errorMessage": m.text}
					}
					b, _ := json.Marshal(v)
					if c.Rand.Intn(6) == 0 {
						conn.WriteControl(websocket.PingMessage, []byte("are you there"), time.Now().Add(time.Second))
						select { // a pong on its way would break the end of the connection
						case <-s.pong:
							c.Count("pongs", 1)
						case <-time.After(20 * time.Second):
							c.Violate("client gone", "the client does not answer a ping")
						}
					}
					c.Log("daemon sends %s", b)
					if err := conn.WriteMessage(websocket.TextMessage, b); err != nil {
						c.Violate("client gone", "the client does not take %s: %v", b, err)
						return
					}
					sent = append(sent, m)
					if step {
						ok := false
						for i := 0; i < 2000 && !ok; i++ {
							ok = sc.find(m.text, at) >= 0
							if !ok {
								time.Sleep(10 * time.Millisecond)
							}
						}
						if !ok {
							c.Violate("message not shown", "%s of %q is not shown after twenty seconds; the client says %q", m.kind, m.text, sc.text())
							return
						}
						at = sc.find(m.text, at)
					}
				}
				switch end {
				case 0:
					conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""), time.Now().Add(time.Second))
					time.Sleep(50 * time.Millisecond)
				case 1:
					conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1001, "bye"), time.Now().Add(time.Second))
				case 2:
				case 3:
					conn.UnderlyingConn().(*net.TCPConn).CloseWrite()
					time.Sleep(20 * time.Millisecond)
				}
			}
			ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
			defer cancel()
			cmd := u.command(ctx, client, args...)
			cmd.Stdout, cmd.Stderr = sc, sc
			c.Log("%q", args)
			if err := cmd.Start(); err != nil {
				c.Errorf("start: %v", err)
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case <-served:
				select {
				case <-done:
				case <-time.After(30 * time.Second):
					c.Violate("no end", "%q goes on thirty seconds after the connection ended", args)
					cmd.Process.Kill()
				}
			case err := <-done:
				select {
				case <-served:
				case <-time.After(20 * time.Second):
					c.Violate("no subscription", "%q ends with %v: %s", args, err, sc.text())
					return
				}
			}
			u.crashed(args, sc.text())
			at := 0
			for _, m := range sent {
				if at = sc.find(m.text, at); at < 0 {
					c.Violate("message not shown", "%s of %q is not shown, or not in order: %q", m.kind, m.text, sc.text())
					break
				}
				c.Count(m.kind, 1)
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.conns != 1 || len(s.requests) != 1 {
				c.Violate("other requests", "%d connections and %d requests: %q", s.conns, len(s.requests), s.requests)
				return
			}
			var q struct {
				ActionType       *string   `json:"actionType"`
				EventTypes       *[]string `json:"eventTypes"`
				DescriptorWallet *string   `json:"descriptorWallet"`
				StartBlockHeight *int64    `json:"startBlockHeight"`
			}
			dec := json.NewDecoder(bytes.NewReader(s.requests[0]))
			dec.DisallowUnknownFields()
			if err := dec.Decode(&q); err != nil || q.ActionType == nil || q.DescriptorWallet == nil || q.StartBlockHeight == nil || *q.ActionType != "register" || *q.DescriptorWallet != desc || *q.StartBlockHeight != height ||
				(len(events) > 0 && (q.EventTypes == nil || strings.Join(*q.EventTypes, "|") != strings.Join(events, "|"))) || (len(events) == 0 && q.EventTypes != nil && len(*q.EventTypes) > 0) {
				c.Violate("wrong request", "%q sends %s (%v)", args, s.requests[0], err)
			}
			c.Count("subscriptions", 1)
			c.Sig("%q %d %d", args, len(sent), end)
		})

		r.Cases("no subscription", r.N(60, 400), func(c *hx.Case) {
			u := newUser(c)
			path := fmt.Sprintf("/none%d", c.Idx)
			s := &script{serve: func(c *websocket.Conn) {}}
			d.scripts.Store(path, s)
			defer d.scripts.Delete(path)
			args := []string{"subscribe", "--descriptor", "elwpkh(02aa)", "--block_height", "0", "--events", "unspentUtxo"}
			addr, conns := d.addr, 0
			how := []string{"no descriptor", "no height", "bad height", "no daemon", "no settings", "refused", "unknown flag", "wrong path"}[c.Rand.Intn(8)]
			switch how {
			case "no descriptor":
				args = append(args[:1:1], args[3:]...)
			case "no height":
				args = append(args[:3:3], args[5:]...)
			case "bad height":
				args[4] = []string{"abc", "1.5", "", "1e3", "99999999999999999999"}[c.Rand.Intn(5)]
			case "no daemon":
				l, err := net.Listen("tcp", "127.0.0.1:0")
				if err == nil {
					addr = l.Addr().String()
					l.Close()
				}
				c.Count("no daemon", 1)
			case "refused":
				s.refuse = []int{400, 404, 500, 503, 200}[c.Rand.Intn(5)]
				conns = 1
				c.Count("daemon that refuses", 1)
			case "unknown flag":
				args = append(args, "--what", "x")
			case "wrong path":
				path += "/nothing"
			}
			switch how {
			case "no descriptor", "no height", "bad height", "unknown flag":
				c.Count("wrong flags", 1)
			}
			if how != "no settings" {
				u.run("config", "--url", addr, "--path", path)
			}
			_, was := u.state()
			out, ok := u.run(args...)
			if ok {
				c.Violate("invalid command succeeds", "%s: %q: %q", how, args, out)
			}
			if strings.TrimSpace(out) == "" {
				c.Violate("failure not told", "%s: %q prints nothing", how, args)
			}
			if _, is := u.state(); !bytes.Equal(was, is) {
				c.Violate("failing command changes something", "%s: %q makes %q of %q", how, args, is, was)
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.conns != conns {
				c.Violate("other requests", "%s: %d connections", how, s.conns)
			}
			c.Sig("%s %q", how, args)
		})
	})
}
