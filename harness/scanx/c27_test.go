package scanx

import (
	"fmt"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"weak"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC27(t *testing.T) {
	kinds := make([]string, 0, len(misbehave))
	for k := range misbehave {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	hx.Main(t, "C27", "Each case is a service to which crowds of clients of all kinds (those of C23 and well-behaved ones) come and go in several rounds, while blocks arrive. Ten minutes after each round the goroutines of the service are compared with those before the first round, its ends of the connections have to be closed, and after a garbage collection the connections must not be kept anywhere. Distinct by who came.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C23's
		r.Require("clients that came and went", "rounds", "goroutines compared", "connections closed", "connections that are not kept", "events of clients that went", "services that came to rest", "objects in memory compared", "webhooks that were withdrawn")
		r.Workers(1)
		r.Cases("memory", r.N(9, 54), caseClientsMemory)
		r.Workers(runtime.GOMAXPROCS(0))
		r.Cases("clients", r.N(60, 1500), func(c *hx.Case) { c.Bubble(func() { caseClientsGone(c, kinds) }) })
	})
}

func caseClientsGone(c *hx.Case, kinds []string) {
	r := c.Rand
	if r.Intn(2) == 0 { // without those that use HTTP
		var l []string
		for _, k := range kinds {
			if !strings.Contains(k, "http") && !strings.Contains(k, "webhook") && !strings.Contains(k, "post") {
				l = append(l, k)
			}
		}
		kinds = l
	}
	w := newWorld(c, 1)
	ds := purse(c, 1+r.Intn(3))
	total := 4 + r.Intn(10)
	for i := 0; i < total; i++ {
		w.payTo(ds)
	}
	tip := 0
	grow := func() {
		if tip < total {
			tip++
			w.showFilter(uint32(tip))
			w.show(uint32(tip))
		}
	}
	a := newAPI(c, w)
	var mu sync.Mutex
	var conns []*hx.MemConn
	var kept []weak.Pointer[hx.MemConn]
	a.l.Dialed = func(client, server *hx.MemConn) {
		mu.Lock()
		conns = append(conns, client)
		kept = append(kept, weak.Make(server))
		mu.Unlock()
	}
	a.start()
	a.serve()
	grow()
	c.Settle(time.Minute)
	was := c.Running()
	p := &party{c: c, w: w, a: a, ds: ds, span: 5000}
	sig := ""
	events := 0
	for round := 0; round < 3; round++ {
		for i := 1 + r.Intn(8); i > 0; i-- {
			k := "good"
			if r.Intn(4) > 0 {
				k = kinds[r.Intn(len(kinds))]
			}
			name := fmt.Sprintf("%s %d.%d", k, round, i)
			sig += k + ","
			c.Count("clients that came and went", 1)
			if f := misbehave[k]; f != nil {
				c.Go(func() { p.sleep(p.span); f(p, name) })
				continue
			}
			c.Go(func() {
				p.sleep(p.span)
				x, err := a.dial(name, true, 0)
				if err != nil {
					c.Violate("connection refused", "%s can't connect: %v", name, err)
					return
				}
				for j := r.Intn(4); j >= 0; j-- {
					x.send(p.request().json())
					p.sleep(2000)
				}
				if r.Intn(2) == 0 {
					s := p.request()
					s.Action = "unregister"
					x.send(s.json())
				}
			})
		}
		for i := r.Intn(4); i >= 0; i-- {
			p.sleep(2 * p.span)
			grow()
		}
		c.Settle(time.Minute)
		mu.Lock()
		l := append([]*hx.MemConn(nil), conns...)
		mu.Unlock()
		for _, x := range l {
			if r.Intn(2) == 0 {
				x.Reset()
			}
			x.Close()
		}
		c.Settle(10 * time.Minute)
		mu.Lock()
		l = append([]*hx.MemConn(nil), conns...)
		mu.Unlock()
		for _, x := range l {
			if !x.PeerClosed() {
				c.Violate("connection not closed", "the service's end of the connection of a client that is gone is open (%s)", sig)
				return
			}
		}
		c.Count("connections closed", len(l))
		c.Count("rounds", 1)
		is := c.Running()
		for _, n := range is {
			c.Count("goroutines compared", n)
		}
		if d := hx.More(was, is); len(d) > 0 {
			c.Violate("left running: "+d[0], "clients came and went (%s); goroutines are left in %v", sig, d)
			return
		}
	}
	// nobody is left who waits for events, unless there are webhooks
	if a.hooked.Load() == 0 {
		w.payTo(ds)
		total++
		for tip < total {
			grow()
		}
		time.Sleep(time.Minute)
		n := w.calls.Load()
		time.Sleep(10 * time.Minute)
		if n = w.calls.Load() - n; n > 0 {
			w.mu.Lock()
			ops := fmt.Sprint(w.ops)
			w.mu.Unlock()
			c.Violate("scans for clients that are gone", "all clients are gone (%s), the service still made %d calls to the stores in ten minutes (all calls: %s)", sig, n, ops)
			return
		}
		c.Count("services that came to rest", 1)
	}
	a.mu.Lock()
	for _, x := range a.clients {
		for _, n := range x.events() {
			events += n
		}
	}
	a.mu.Unlock()
	n := 0
	for i := 0; i < 4; i++ {
		runtime.GC()
		n = 0
		for _, x := range kept {
			if x.Value() != nil {
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	c.Count("events of clients that went", events)
	c.Count("connections that are not kept", len(kept)-n)
	c.Count("connections seen kept", n)
	if n > 2 { // the last ones may still be on somebody's stack
		c.Violate("clients kept", "%d of %d connections of clients that are gone are still referred to (%s)", n, len(kept), sig)
		return
	}
	c.Sig("%s", sig)
	c.Sample(map[string]interface{}{"clients": sig, "goroutines": was, "events": events, "connections": len(kept), "kept": n})
}

// live is the number of objects on the heap that are still referred to, and what
// they take.
func live() (objects, bytes int) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapObjects), int(m.HeapAlloc)
}

// caseClientsMemory compares what is kept in memory after a crowd of clients with
// what is kept after the next ones. Nothing else runs meanwhile.
func caseClientsMemory(c *hx.Case) {
	c.Bubble(func() {
		for i := 0; i < 5000; i++ { // from now on the log of the case does not grow
			c.Log("-")
		}
		w := newWorld(c, 1)
		ds := purse(c, 2)
		for i := 0; i < 6; i++ {
			w.payTo(ds)
		}
		a := newAPI(c, w)
		a.start()
		a.serve()
		for h := uint32(1); h <= 4; h++ {
			w.showFilter(h)
			w.show(h)
		}
		p := &party{c: c, w: w, a: a, ds: ds, span: 1000}
		hook := a.hook("hook", "good")
		talk := func(pause time.Duration, say []string, answers int) {
			mem, err := a.l.Dial(ctx)
			if err != nil {
				c.Violate("connection refused", "a client can't connect: %v", err)
				return
			}
			defer mem.Close()
			mem.SetDeadline(time.Now().Add(time.Minute))
			u, _ := url.Parse("ws://10.9.9.9:8000/neutrino/subscribe/ws")
			conn, _, err := websocket.NewClient(mem, u, nil, 1024, 1024)
			if err != nil {
				c.Violate("connection refused", "a client can't connect: %v", err)
				return
			}
			for _, x := range say {
				conn.WriteMessage(websocket.TextMessage, []byte(x))
				time.Sleep(pause)
			}
			for i := 0; i < answers; i++ {
				if _, _, err := conn.ReadMessage(); err != nil {
					c.Violate("no answer", "a client is not answered: %v", err)
					return
				}
			}
		}
		how := c.Idx % 6
		if c.Idx%9 > 5 { // those who come and go while scans go on
			how = []int{0, 1, 4}[c.Idx%9-6]
			talk(0, []string{string(p.request().json())}, 1)
			w.mu.Lock()
			w.Delay = func(string, uint32) time.Duration { return 70 * time.Millisecond }
			w.mu.Unlock()
		}
		visit := func() {
			s := p.request()
			u := s
			u.Action = "unregister"
			bad := s
			bad.Desc = []string{"wpkh(03)", "nonsense(1)", "wsh(multi(2,[))"}[c.Rand.Intn(3)]
			switch how {
			case 0:
				talk(ms(c.Rand, 1)*100, []string{string(s.json()), string(s.json()), string(u.json())}, 3)
			case 1:
				talk(ms(c.Rand, 1)*100, []string{string(s.json())}, 1)
			case 2:
				talk(ms(c.Rand, 1)*100, []string{string(bad.json())}, 1)
			case 3:
				bad.URL = hook.url
				a.post("client", bad.json())
				time.Sleep(ms(c.Rand, 200)) // until it is withdrawn, a webhook is that of a client that is there
				u.URL, u.Desc = bad.URL, bad.Desc
				a.post("client", u.json())
			case 4:
				s.URL, u.URL = hook.url, hook.url
				if got := outcome(a.post("client", s.json())); got != "success" {
					c.Violate("no answer", "a request over http gets %s", got)
				}
				if c.Rand.Intn(2) == 0 {
					time.Sleep(ms(c.Rand, 300))
				}
				if got := outcome(a.post("client", u.json())); got != "success" {
					c.Violate("no answer", "an unregistration over http gets %s", got)
				}
				c.Count("webhooks that were withdrawn", 1)
			case 5:
				talk(ms(c.Rand, 1)*100, []string{"{", string(u.json()), `{"actionType":"dance"}`}, 1)
			}
			time.Sleep(100 * time.Millisecond)
		}
		const crowd = 150
		var grown, bytes []int
		was, took := 0, 0
		for round := 0; round < 6 && !c.Failed(); round++ {
			for i := 0; i < crowd && !c.Failed(); i++ {
				visit()
			}
			c.Settle(10 * time.Minute)
			hook.mu.Lock()
			hook.msgs = nil
			hook.mu.Unlock()
			is, takes := live()
			grown = append(grown, is-was)
			bytes = append(bytes, takes-took)
			was, took = is, takes
		}
		c.Count("clients that came and went", 6*crowd)
		c.Count("objects in memory compared", was)
		least := grown[2]
		for _, n := range grown[3:] {
			if n < least {
				least = n
			}
		}
		if least > crowd/2 {
			c.Violate("memory grows", "every %d clients that come and go (kind %d) leave at least %d objects in memory: %v", crowd, how, least, grown)
		}
		for h := uint32(5); h <= 6; h++ {
			w.showFilter(h)
			w.show(h)
		}
		time.Sleep(time.Minute)
		n := w.calls.Load()
		time.Sleep(10 * time.Minute)
		if n = w.calls.Load() - n; n > 0 {
			c.Violate("scans for clients that are gone", "all clients have withdrawn or are gone (kind %d), the service still made %d calls to the stores in ten minutes", how, n)
		}
		c.Count("services that came to rest", 1)
		c.Sig("memory %d %v", how, grown)
		c.Sample(map[string]interface{}{"clients per round": crowd, "kind": how, "objects more after each round": grown, "bytes more": bytes})
	})
}
