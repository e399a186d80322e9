package scanx

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/middleware"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// Webhooks are dialed in memory: the host of the endpoint says whom.
var (
	hooks  sync.Map // host -> func(ctx) (net.Conn, error)
	hostNo atomic.Int64
)

func init() {
	http.DefaultTransport = &http.Transport{
		DisableKeepAlives: true, // a connection must not survive its bubble
		DialContext: func(ctx context.Context, network, a string) (net.Conn, error) {
			if f, ok := hooks.Load(a); ok {
				return f.(func(context.Context) (net.Conn, error))(ctx)
			}
			if host, _, err := net.SplitHostPort(a); err == nil && net.ParseIP(host).IsLoopback() { // C24
				return (&net.Dialer{Timeout: 30 * time.Second}).DialContext(ctx, network, a)
			}
			return nil, errors.New("no route to host " + a)
		},
	}
}

// api is the notification service with both its interfaces.
type api struct {
	c   *hx.Case
	w   *world
	s   scanner.Service
	svc application.NotificationService
	h   handler.DescriptorWalletNotifierHandler
	l   *hx.MemListener
	srv *http.Server

	once     sync.Once
	stopped  time.Time
	inflight atomic.Int64 // webhook calls under way
	hooked   atomic.Int64 // requests over HTTP
	mu       sync.Mutex
	logs     []string
	clients  []*wsClient
}

type logTo struct{ a *api }

func (l logTo) Write(b []byte) (int, error) {
	l.a.mu.Lock()
	l.a.logs = append(l.a.logs, string(b))
	l.a.mu.Unlock()
	if strings.Contains(string(b), "panic") {
		l.a.c.Violate("panic", "%s", b)
	}
	return len(b), nil
}

func newAPI(c *hx.Case, w *world) *api {
	a := &api{c: c, w: w, s: w.scanner(), l: hx.NewMemListener("10.9.9.9:8000")}
	a.svc = application.NewNotificationService(a.s)
	a.h = handler.NewDescriptorWalletNotifierHandler(a.svc)
	m := middleware.NewMiddlewareService()
	ms := []middleware.Middleware{m.LoggingMiddleware, m.PanicRecovery}
	mux := http.NewServeMux()
	mux.HandleFunc("/neutrino/subscribe/ws", m.WrapHandlerWithMiddlewares(a.h.HandleSubscriptionRequestWs, ms...))
	overHTTP := m.WrapHandlerWithMiddlewares(a.h.HandleSubscriptionRequestHttp, ms...)
	mux.HandleFunc("/neutrino/subscribe/http", func(w http.ResponseWriter, r *http.Request) {
		a.hooked.Add(1)
		overHTTP(w, r)
	})
	a.srv = &http.Server{Handler: mux, ErrorLog: log.New(logTo{a}, "", 0)}
	c.Cleanup(func() { a.stop() })
	return a
}

func (a *api) start() {
	if err := a.svc.Start(); err != nil {
		a.c.Violate("start fails", "Start: %v", err)
		a.c.Abort()
	}
	a.h.Start()
}

func (a *api) serve() { a.c.Go(func() { a.srv.Serve(a.l) }) }

// stop stops everything as the server does.
func (a *api) stop() {
	a.once.Do(func() {
		a.srv.Close()
		a.h.Stop()
		a.s.Stop()
	})
}

// message is what a client got.
type message struct {
	at   time.Time
	raw  string
	kind string // success, error, event
	text string
	tx   string
}

func parseMessage(raw []byte) (m message, ok bool) {
	m = message{at: time.Now(), raw: string(raw)}
	var x struct {
		Message      *string `json:"message"`
		ErrorMessage *string `json:"errorMessage"`
		EventType    *string `json:"eventType"`
		TxID         *string `json:"txId"`
	}
	d := json.NewDecoder(bytes.NewReader(raw))
	d.DisallowUnknownFields()
	if err := d.Decode(&x); err != nil {
		return m, false
	}
	if rest, _ := io.ReadAll(d.Buffered()); len(bytes.TrimSpace(rest)) > 0 {
		return m, false
	}
	switch {
	case x.Message != nil && x.ErrorMessage == nil && x.EventType == nil && x.TxID == nil && *x.Message != "":
		m.kind, m.text = "success", *x.Message
	case x.Message == nil && x.ErrorMessage != nil && x.EventType == nil && x.TxID == nil && *x.ErrorMessage != "":
		m.kind, m.text = "error", *x.ErrorMessage
	case x.Message == nil && x.ErrorMessage == nil && x.EventType != nil && x.TxID != nil:
		m.kind, m.text, m.tx = "event", *x.EventType, *x.TxID
	default:
		return m, false
	}
	return m, true
}

// inbox collects the messages of a subscriber.
type inbox struct {
	c    *hx.Case
	name string
	mu   sync.Mutex
	msgs []message
	gone time.Time // when the connection ended
}

func (b *inbox) put(raw []byte) {
	m, ok := parseMessage(raw)
	b.c.Log("%s gets %s", b.name, raw)
	if !ok {
		b.c.Violate("malformed message", "%s gets %q", b.name, raw)
	}
	b.mu.Lock()
	b.msgs = append(b.msgs, m)
	b.mu.Unlock()
}

// all returns the messages from the given one on.
func (b *inbox) all(from int) []message {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]message(nil), b.msgs[from:]...)
}

func (b *inbox) count() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.msgs)
}

func (b *inbox) ended() time.Time {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.gone
}

func (b *inbox) events() map[string]int {
	m := map[string]int{}
	for _, x := range b.all(0) {
		if x.kind == "event" {
			m[x.text+" "+x.tx]++
		}
	}
	return m
}

// wsClient is a client of the web-socket.
type wsClient struct {
	inbox
	mem  *hx.MemConn
	conn *websocket.Conn
	wmu  sync.Mutex
}

// dial connects; limit is how much the server may have written ahead of what the
// client reads (0: much).
func (a *api) dial(name string, read bool, limit int) (*wsClient, error) {
	if limit == 0 {
		limit = a.l.Limit
	}
	mem, err := a.l.DialLimit(ctx, limit)
	if err != nil {
		return nil, err
	}
	mem.SetDeadline(time.Now().Add(time.Minute))
	u, _ := url.Parse("ws://10.9.9.9:8000/neutrino/subscribe/ws")
	conn, _, err := websocket.NewClient(mem, u, nil, 1024, 1024)
	if err != nil {
		mem.Close()
		return nil, err
	}
	mem.SetDeadline(time.Time{})
	x := &wsClient{inbox: inbox{c: a.c, name: name}, mem: mem, conn: conn}
	a.mu.Lock()
	a.clients = append(a.clients, x)
	a.mu.Unlock()
	a.c.Cleanup(func() { mem.Close() })
	if read {
		x.read()
	}
	return x, nil
}

func (x *wsClient) read() {
	x.c.Go(func() {
		for {
			t, b, err := x.conn.ReadMessage()
			if err != nil {
				x.c.Log("%s ends: %v", x.name, err)
				x.mu.Lock()
				x.gone = time.Now()
				x.mu.Unlock()
				return
			}
			if t != websocket.TextMessage {
				x.c.Violate("malformed message", "%s gets a message of type %d", x.name, t)
			}
			x.put(b)
		}
	})
}

func (a *api) mustDial(name string) *wsClient {
	x, err := a.dial(name, true, 0)
	if err != nil {
		a.c.Violate("connection refused", "%s can't connect: %v", name, err)
		a.c.Abort()
	}
	return x
}

func (x *wsClient) send(b []byte) error {
	x.wmu.Lock()
	defer x.wmu.Unlock()
	x.c.Log("%s sends %s", x.name, b)
	x.conn.SetWriteDeadline(time.Now().Add(time.Minute))
	return x.conn.WriteMessage(websocket.TextMessage, b)
}

// post sends a request to the http interface. It returns the status and the body;
// status 0 if there was no answer.
func (a *api) post(name string, body []byte) (int, []byte) {
	a.c.Log("%s posts %s", name, body)
	mem, err := a.l.Dial(ctx)
	if err != nil {
		return 0, nil
	}
	defer mem.Close()
	mem.SetDeadline(time.Now().Add(30 * time.Second))
	req, _ := http.NewRequest("POST", "http://10.9.9.9:8000/neutrino/subscribe/http", bytes.NewReader(body))
	req.Header.Set("Content-Type", "application/json")
	req.Close = true
	if err := req.Write(mem); err != nil {
		return 0, nil
	}
	resp, err := http.ReadResponse(bufio.NewReader(mem), req)
	if err != nil {
		a.c.Log("%s: %v", name, err)
		return 0, nil
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, nil
	}
	a.c.Log("%s is answered %d %s", name, resp.StatusCode, b)
	return resp.StatusCode, b
}

// outcome of an answer over http.
func outcome(status int, body []byte) string {
	if status == 0 {
		return "no answer"
	}
	if status >= 400 {
		if len(bytes.TrimSpace(body)) == 0 {
			return "error without message"
		}
		return "error"
	}
	if m, ok := parseMessage(body); ok && status == 200 && m.kind != "event" {
		return m.kind
	}
	return fmt.Sprintf("malformed answer %d %q", status, body)
}

// hook is a webhook.
type hook struct {
	inbox
	host string
	url  string
	l    *hx.MemListener
	mode string
	a    *api
}

func (a *api) hook(name, mode string) *hook {
	k := &hook{inbox: inbox{c: a.c, name: name}, host: fmt.Sprintf("hook%d.test:80", hostNo.Add(1)), mode: mode, a: a}
	target := "/notify?of=" + url.QueryEscape(name)
	k.url = "http://" + k.host[:len(k.host)-3] + target
	k.l = hx.NewMemListener(k.host)
	r := a.w.r
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		a.inflight.Add(1)
		defer a.inflight.Add(-1)
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		if req.Method != "POST" || req.URL.RequestURI() != target || req.Header.Get("Content-Type") != "application/json" {
			a.c.Violate("malformed message", "%s gets %s %s %q", name, req.Method, req.URL.RequestURI(), req.Header.Get("Content-Type"))
		}
		k.put(b)
		switch mode {
		case "hangs":
			<-req.Context().Done()
		case "slow":
			time.Sleep(ms(r, 8000))
		case "fails":
			w.WriteHeader(500)
		case "endless":
			for {
				if _, err := w.Write(make([]byte, 4096)); err != nil {
					return
				}
				time.Sleep(time.Second)
			}
		case "redirects":
			http.Redirect(w, req, k.url, http.StatusTemporaryRedirect)
		case "breaks":
			panic(http.ErrAbortHandler)
		}
	})}
	a.c.Go(func() { srv.Serve(k.l) })
	a.c.Cleanup(func() { srv.Close(); hooks.Delete(k.host) })
	hooks.Store(k.host, func(ctx context.Context) (net.Conn, error) {
		a.inflight.Add(1)
		defer a.inflight.Add(-1)
		switch mode {
		case "refuses":
			return nil, errors.New("connection refused")
		case "black hole":
			short, cancel := context.WithTimeout(ctx, 30*time.Second) // as the default dialer
			defer cancel()
			<-short.Done()
			return nil, short.Err()
		}
		c, err := k.l.Dial(ctx)
		if err != nil {
			return nil, err
		}
		return c, nil
	})
	return k
}

// sub is a subscription request.
type sub struct {
	Action string
	Events []string
	Desc   string
	Height int
	URL    string
}

func (s sub) json() []byte {
	m := map[string]interface{}{"actionType": s.Action, "eventTypes": s.Events, "descriptorWallet": s.Desc, "startBlockHeight": s.Height}
	if s.URL != "" {
		m["endpointUrl"] = s.URL
	}
	b, _ := json.Marshal(m)
	return b
}
