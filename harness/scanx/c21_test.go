package scanx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// ask is a request and what its answer has to be.
type ask struct {
	body  []byte
	class string
	want  string // success, error, or any (exactly one, of either kind)
	sub
	watchable bool // for those registered: whether the descriptor can be watched
}

// spell writes an object with its keys in any order and any white space.
func spell(r *rand.Rand, m map[string]interface{}) []byte {
	var keys []string
	for _, k := range []string{"actionType", "eventTypes", "descriptorWallet", "startBlockHeight", "endpointUrl", "extra"} {
		if _, ok := m[k]; ok {
			keys = append(keys, k)
		}
	}
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	ws := func() string {
		if r.Intn(4) > 0 {
			return ""
		}
		return strings.Repeat([]string{" ", "\n", "\t"}[r.Intn(3)], 1+r.Intn(2))
	}
	var b strings.Builder
	b.WriteString(ws() + "{" + ws())
	for i, k := range keys {
		if i > 0 {
			b.WriteString("," + ws())
		}
		v, _ := json.Marshal(m[k])
		if raw, ok := m[k].(json.RawMessage); ok {
			v = raw
		}
		fmt.Fprintf(&b, "%q%s:%s%s%s", k, ws(), ws(), v, ws())
	}
	b.WriteString("}" + ws())
	return []byte(b.String())
}

func (s sub) fields() map[string]interface{} {
	m := map[string]interface{}{"actionType": s.Action, "eventTypes": s.Events, "descriptorWallet": s.Desc, "startBlockHeight": s.Height}
	if s.URL != "" {
		m["endpointUrl"] = s.URL
	}
	return m
}

func randEvents(r *rand.Rand) []string {
	return [][]string{{"unspentUtxo"}, {"unspentUtxo"}, {"spentUtxo"}, {"unspentUtxo", "spentUtxo"}, {"unspentUtxo", "unspentUtxo"}}[r.Intn(5)]
}

// randAsk makes a request for an interface. has tells whether a subscription is
// there to be un-registered.
func randAsk(r *rand.Rand, http bool, url string, has func(desc string) string) ask {
	s := sub{Action: "register", Events: randEvents(r), Desc: newDesc(r, false).text, Height: []int{0, 1, r.Intn(1000), 1<<32 - 1}[r.Intn(4)], URL: url}
	for !http && len(s.json()) > 500 {
		s.Desc = newDesc(r, false).text
	}
	with := func(class, want string, k string, v interface{}) ask {
		m := s.fields()
		m[k] = v
		if v == nil {
			delete(m, k)
		}
		return ask{body: spell(r, m), class: class, want: want, sub: s}
	}
	raw := func(l ...string) json.RawMessage { return json.RawMessage(l[r.Intn(len(l))]) }
	switch r.Intn(24) {
	case 0, 1, 2, 3:
		a := with("register", "success", "extra", nil)
		a.watchable = true
		if n := 512 - r.Intn(40)*r.Intn(2); r.Intn(3) == 0 && len(a.body) < n { // as long as a frame may be
			a.body = append(a.body, strings.Repeat(" ", n-len(a.body))...)
			a.class = "register at length"
		} else if http && r.Intn(3) == 0 { // HTTP has no frames
			n := []int{500, 1000, 2000, 4000, 8000, 16000, 33000, 66000}[r.Intn(8)] + r.Intn(600)
			if r.Intn(2) == 0 {
				a.body = append([]byte(strings.Repeat(" ", n)), a.body...)
			} else {
				a = with("", "success", "extra", strings.Repeat("x", n))
				a.watchable = true
			}
			a.class = "long register"
		}
		return a
	case 4: // as the types of the library encode it
		var b []byte
		if http {
			q := neutrinodtypes.SubscriptionRequestHttp{ActionType: neutrinodtypes.Register, EventTypes: []scanner.EventType{scanner.UnspentUtxo}, DescriptorWallet: s.Desc, StartBlockHeight: s.Height, EndpointUrl: url}
			if r.Intn(2) == 0 {
				q.EventTypes = append(q.EventTypes, scanner.SpentUtxo)
			}
			b, _ = json.Marshal(q)
		} else {
			b, _ = json.Marshal(neutrinodtypes.SubscriptionRequestWs{ActionType: neutrinodtypes.Register, EventTypes: []neutrinodtypes.EventType{neutrinodtypes.UnspentUtxo}, DescriptorWallet: s.Desc, StartBlockHeight: s.Height})
		}
		return ask{body: b, class: "register in the library's form", want: "success", sub: s, watchable: true}
	case 5:
		a := with("register with unknown fields", "success", "extra", map[string]interface{}{"x": []int{1}})
		a.watchable = true
		return a
	case 6: // accepted, but can't be watched
		s.Desc, _ = malformed(r)
		for s.Desc == "" || !http && len(s.json()) > 450 || strings.ContainsAny(s.Desc, "\x00\xff\n") {
			s.Desc, _ = malformed(r)
		}
		return with("bad descriptor", "success", "extra", nil)
	case 7:
		if r.Intn(2) == 0 {
			s.Height = 1<<32 + r.Intn(1<<20)
			return with("height out of range", "success", "extra", nil)
		}
		return with("negative height", "error", "startBlockHeight", -1-r.Intn(1<<30))
	case 8:
		return with("no descriptor", "error", "descriptorWallet", []interface{}{nil, ""}[r.Intn(2)])
	case 9:
		return with("no events", "error", "eventTypes", []interface{}{nil, []string{}, raw("null")}[r.Intn(3)])
	case 10:
		return with("unknown event", "error", "eventTypes", [][]string{{"unspent"}, {""}, {"unspentUtxo", "x"}, {"UnspentUtxo"}, {"spentUtxo", "unspentUtxo", "-"}, {" unspentUtxo"}}[r.Intn(6)])
	case 11:
		return with("unknown action", "error", "actionType", []interface{}{nil, "", "REGISTER", "Register", "subscribe", "register ", "unRegister", "registerunregister", "null"}[r.Intn(9)])
	case 12:
		k := []string{"actionType", "eventTypes", "descriptorWallet", "startBlockHeight"}[r.Intn(4)]
		switch k {
		case "actionType", "descriptorWallet":
			return with("wrong type", "error", k, raw("1", "true", "[]", "{}", `["register"]`, "1.5"))
		case "eventTypes":
			return with("wrong type", "error", k, raw(`"unspentUtxo"`, "true", "{}", `{"0":"unspentUtxo"}`, "[{}]", "[[]]", "[true]", "[1.5]", `["unspentUtxo",[]]`, "[-1]", "[2]", "[7]", "[1e3]", "0"))
		}
		return with("wrong type", "error", k, raw(`"x"`, "true", "[]", "{}", "1.5", "99999999999999999999999", "1e400", "-1e30", `""`))
	case 13, 14: // cut
		b := s.json()
		return ask{body: b[:r.Intn(len(b))], class: "truncated", want: "error", sub: s}
	case 15:
		return ask{body: append(s.json(), raw("x", "}", "{}", ",", " []", `"`, " 1", "]")...), class: "trailing garbage", want: "error", sub: s}
	case 16:
		return ask{body: raw("[]", "1", `"register"`, "true", "null", "{}", `[{"actionType":"register"}]`, "-", "{", "nul", "register", "\x00", "\xff\xfe", "{'actionType':'register'}", "<xml/>", " ", "{\"a\":}", "[1,]", strings.Repeat("[", 400)), class: "no request", want: "error", sub: s}
	case 17:
		b := make([]byte, 1+r.Intn(200))
		hx.Fill(r, b)
		return ask{body: b, class: "noise", want: "error", sub: s}
	case 18:
		if http {
			return with("bad endpoint", "error", "endpointUrl", []interface{}{nil, "", "x", "/notify", "127.0.0.1:80", "http://", "http:///x", "://x", "http://[::1", "ftp://127.0.0.1/x", "mailto:a@b", "http://a b/"}[r.Intn(12)])
		}
		s.Desc += strings.Repeat("0", 600)
		return with("too long", "any", "extra", nil)
	}
	s.Action = "unregister"
	if r.Intn(3) == 0 {
		s.Events = nil
	}
	a := with("unregister", has(s.Desc), "extra", nil)
	return a
}

func TestC21(t *testing.T) {
	hx.Main(t, "C21", "A case is a service with clients on web-sockets and HTTP that send requests of every kind: valid in several spellings, for un-watchable descriptors, with invalid or missing fields, wrong types, unknown actions, cut, followed by garbage, noise, too long. Each is answered once, in the right sense; a bystander is served throughout. Distinct by requests.", func(r *hx.Run) {
		r.TolerateLeaks() // C23
		r.Require("ws register", "ws unregister: success", "ws unregister: error", "http register", "http unregister: success", "http unregister: error", "ws truncated", "http truncated", "ws wrong type", "http wrong type", "http trailing garbage", "late errors", "bystanders served", "ws register at length", "http register at length", "http long register", "http unregister after a refusal", "pipelined requests", "concurrent requests", "early requests")

		// a bystander gets what it is subscribed to
		type bystander struct {
			x    *wsClient
			k    *hook
			desc *desc
		}
		setup := func(c *hx.Case) (*api, *bystander) {
			w := newWorld(c, 1)
			a := newAPI(c, w)
			d := newDesc(c.Rand, false)
			for d.kind != "public key" {
				d = newDesc(c.Rand, false)
			}
			b := &bystander{desc: d}
			early := c.Rand.Intn(4) == 0
			if !early {
				a.start()
			}
			a.serve()
			b.x = a.mustDial("bystander")
			b.k = a.hook("webhook bystander", "")
			s := sub{"register", []string{"unspentUtxo"}, d.text, 0, ""}
			b.x.send(s.json())
			s.URL = b.k.url
			if st, body := a.post("webhook bystander", s.json()); outcome(st, body) != "success" {
				c.Violate("valid request refused", "%s: %d %s", s.json(), st, body)
			}
			if early {
				c.Count("early requests", 2)
				time.Sleep(ms(c.Rand, 3000))
				a.start()
			}
			c.Settle(time.Second)
			if l := b.x.all(0); len(l) != 1 || l[0].kind != "success" {
				c.Violate("valid request refused", "%s is answered %v", s.json(), l)
				c.Abort()
			}
			return a, b
		}
		finish := func(a *api, b *bystander) {
			w := a.w
			tx := hx.RandTx(w.r, [][]byte{b.desc.scripts[0]}, false)
			blk := w.mineTxs([]*hx.Tx{tx}, nil)
			w.showFilter(blk.H.Height)
			w.show(blk.H.Height)
			a.c.Settle(15 * time.Second)
			for _, x := range []*inbox{&b.x.inbox, &b.k.inbox} {
				want := 0
				if x == &b.x.inbox {
					want = 1
				}
				l := x.all(want)
				if len(l) != 1 || l[0].kind != "event" || l[0].tx != tx.ID().String() || l[0].text != "unspentUtxo" {
					a.c.Violate("bystander not served", "%s, subscribed before, gets %v of a payment after the requests", x.name, l)
				}
			}
			a.c.Count("bystanders served", 1)
		}
		judge := func(c *hx.Case, iface string, q ask, got []string, late int) {
			c.Count(iface+" "+q.class, 1)
			n := map[string]int{}
			for _, g := range got {
				n[g]++
			}
			wantErr := late
			bad := ""
			switch q.want {
			case "success":
				if n["success"] != 1 || n["error"] != wantErr || len(got) != 1+wantErr {
					bad = "success"
				}
			case "error":
				if n["success"] != 0 || n["error"] != 1+wantErr || len(got) != 1+wantErr {
					bad = "error"
				}
			default:
				if len(got) != 1+wantErr || n["success"]+n["error"] != len(got) {
					bad = "one answer"
				}
			}
			if bad == "" {
				return
			}
			if late > 0 {
				bad += " and one error"
			}
			key := "wrong answer"
			if len(got) == 0 {
				key = "no answer"
			} else if len(got) > 1+late {
				key = "several answers"
			}
			c.Violate(key+": "+q.class, "%s request %q (%s) results in %v instead of %s", iface, q.body, q.class, got, bad)
		}

		r.Cases("ws", r.N(220, 5000), func(c *hx.Case) {
			c.Bubble(func() {
				a, b := setup(c)
				var wg sync.WaitGroup
				for i := 1 + c.Rand.Intn(3); i > 0; i-- {
					wg.Add(1)
					x := a.mustDial(fmt.Sprintf("client %d", i))
					c.Go(func() {
						defer wg.Done()
						live := 0
						for n := 1 + c.Rand.Intn(10); n > 0 && !c.Failed(); n-- {
							q := randAsk(c.Rand, false, "", func(string) string {
								if live > 0 {
									return "success"
								}
								return "error"
							})
							if q.class == "too long" && n > 1 {
								continue
							}
							from := x.count()
							x.send(q.body)
							time.Sleep(2 * time.Second)
							if q.class == "too long" && !x.ended().IsZero() {
								c.Count("connections closed for their request", 1)
								break
							}
							if !x.ended().IsZero() {
								c.Violate("connection closed", "ws request %q (%s) ends the connection", q.body, q.class)
								break
							}
							late := 0
							if q.want == "success" && q.Action == "register" {
								if q.watchable {
									live++
								} else {
									late = 1
									c.Count("late errors", 1)
								}
							}
							var got []string
							for _, m := range x.all(from) {
								got = append(got, m.kind)
								if m.kind == "success" && strings.Contains(m.text, "un-regist") != (q.Action == "unregister") {
									c.Violate("answer to another request", "ws request %q is answered %s", q.body, m.raw)
								}
							}
							judge(c, "ws", q, got, late)
							if q.class == "unregister" {
								c.Count("ws unregister: "+q.want, 1)
								if q.want == "success" {
									live = 0
								}
							}
							c.Sig("%s", q.body)
							c.Sample(map[string]interface{}{"request": string(q.body), "class": q.class, "answers": got})
						}
						if c.Rand.Intn(2) == 0 {
							x.mem.Close()
						}
					})
				}
				wg.Wait()
				finish(a, b)
			})
		})

		// without waiting for the answers
		r.Cases("ws pipelined", r.N(60, 1500), func(c *hx.Case) {
			c.Bubble(func() {
				a, b := setup(c)
				x := a.mustDial("client")
				live, ok, bad, late := 0, 0, 0, 0
				var qs []string
				for n := 2 + c.Rand.Intn(30) + c.Rand.Intn(2)*c.Rand.Intn(600); n > 0; n-- {
					q := randAsk(c.Rand, false, "", func(string) string {
						if live > 0 {
							return "success"
						}
						return "error"
					})
					if q.class == "too long" || q.want == "success" && !q.watchable && q.Action == "register" {
						continue
					}
					x.send(q.body)
					qs = append(qs, string(q.body))
					c.Count("pipelined requests", 1)
					if q.want == "success" {
						ok++
					} else {
						bad++
					}
					if q.want == "success" && q.Action == "register" {
						live++
					}
					if q.class == "unregister" && q.want == "success" {
						live = 0
					}
				}
				c.Settle(3 * time.Second)
				n := map[string]int{}
				for _, m := range x.all(0) {
					n[m.kind]++
				}
				if n["success"] != ok || n["error"] != bad+late || n["event"] != 0 {
					c.Violate("wrong answers", "%d requests to be accepted and %d to be refused, sent at once, are answered by %v: %q", ok, bad, n, qs)
				}
				c.Sig("%q", qs)
				finish(a, b)
			})
		})

		r.Cases("http", r.N(220, 5000), func(c *hx.Case) {
			c.Bubble(func() {
				a, b := setup(c)
				var wg sync.WaitGroup
				n := 1 + c.Rand.Intn(4)
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("client %d", i)
					k := a.hook(name, "")
					wg.Add(1)
					c.Go(func() {
						defer wg.Done()
						subs := map[string]bool{}
						grey := map[string]bool{}
						var regs []string
						refused := map[string]bool{}
						for j := 1 + c.Rand.Intn(10); j > 0 && !c.Failed(); j-- {
							q := randAsk(c.Rand, true, k.url, func(d string) string { return "error" })
							if q.class == "unregister" && len(regs) > 0 && c.Rand.Intn(3) > 0 {
								q.Desc = regs[c.Rand.Intn(len(regs))]
								q.body = spell(c.Rand, q.fields())
								q.want = "error"
								if refused[q.Desc] {
									q.class = "unregister after a refusal"
								} else if subs[q.Desc] {
									q.want = "success"
								} else if grey[q.Desc] {
									q.want = "any"
								}
							}
							switch q.class { // of a register request for a descriptor
							case "negative height", "no events", "unknown event", "bad endpoint", "unknown action", "wrong type":
								if !subs[q.Desc] && !grey[q.Desc] {
									refused[q.Desc] = true
									regs = append(regs, q.Desc)
								}
							}
							from := k.count()
							st, body := a.post(name, q.body)
							time.Sleep(2 * time.Second)
							o := outcome(st, body)
							var got []string
							if o != "no answer" {
								got = append(got, o)
							}
							late := 0
							if q.want == "success" && q.Action == "register" {
								regs = append(regs, q.Desc)
								delete(refused, q.Desc)
								if q.watchable {
									subs[q.Desc] = true
								} else {
									late = 1
									grey[q.Desc] = true
									c.Count("late errors", 1)
								}
							}
							for _, m := range k.all(from) {
								if m.kind == "error" {
									got = append(got, "error")
								} else {
									got = append(got, "webhook: "+m.raw)
								}
							}
							judge(c, "http", q, got, late)
							if q.Action == "unregister" {
								c.Count("http unregister: "+q.want, 1)
								delete(subs, q.Desc)
								delete(grey, q.Desc)
							}
							if n > 1 {
								c.Count("concurrent requests", 1)
							}
							c.Sig("%s", bytes.ReplaceAll(q.body, []byte(k.host[:len(k.host)-3]), []byte("hook")))
							c.Sample(map[string]interface{}{"request": string(q.body), "class": q.class, "answers": got})
						}
					})
				}
				wg.Wait()
				finish(a, b)
			})
		})
	})
}
