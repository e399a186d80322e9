package scanx

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// malformed is a string that is no descriptor, or one of a kind that is not supported.
func malformed(r *rand.Rand) (text, how string) {
	d := newDesc(r, false)
	wrap := func(inner string) string { return d.prefix + "(" + inner + ")" }
	bad := func(l ...string) string { return l[r.Intn(len(l))] }
	switch r.Intn(22) {
	case 0:
		b := make([]byte, r.Intn(80))
		for i := range b {
			b[i] = "()[]#/*'hx, elwpkhprvub0123456789abcdef\x00\xff\n"[r.Intn(42)]
		}
		return string(b), "noise"
	case 1:
		return bad("", " ", "()", "(", ")", "#", "elwpkh", "elwpkh()", "elwpkh(", "elwpkh)", "elwpkh(])", "elwpkh([)", "elwpkh([])", "elwpkh(/)", "elwpkh(/*)", "elwpkh(*)", "elwpkh([]/0)", "[elwpkh(])", "wpkh()", "wpkh(])", "wpkh(", "#elwpkh()", "elwpkh()#", "elwpkh()#12345678", "#12345678"), "empty parts"
	case 2:
		return d.prefix + "(" + d.origin + d.key + d.path, "no closing bracket"
	case 3:
		return d.origin + d.key + d.path, "a key without function"
	case 4:
		return bad("elpk", "elpkh", "eltr", "elcombo", "eladdr", "elraw", "elmulti", "pkh", "pk", "tr", "addr", "raw", "combo", "ELWPKH", "el", "wsh", "sh", "nothing", "xwpkhx", "elelwpkh") + d.text[len(d.prefix):], "another function"
	case 5:
		return bad("elsh", "elwsh", "sh", "wsh") + "(" + d.text + ")", "nested"
	case 6:
		return bad("elmulti", "elsortedmulti", "elwpkh", "elmulti_a") + "(1," + d.key + "," + d.key + ")", "several keys"
	case 7:
		x := make([]byte, 1+r.Intn(40))
		hx.Fill(r, x)
		if len(x) == 33 {
			x = x[1:]
		}
		return wrap(hex.EncodeToString(x)), "a key of a wrong length"
	case 8: // no point has this x
		for {
			x := make([]byte, 33)
			hx.Fill(r, x)
			x[0] = byte(2 + r.Intn(2))
			if !onCurve(x[1:]) {
				return wrap(hex.EncodeToString(x)), "no point of the curve"
			}
		}
	case 9:
		p := newMaster(r).p.compressed()
		p[0] = byte(5 + r.Intn(250))
		return wrap(hex.EncodeToString(p)), "a key with a wrong prefix"
	case 10:
		return wrap(newMaster(r).public().String() + "/" + bad("0'", "5h", "0/1'", "2147483647'/0") + bad("", "/*")), "hardened path of a public key"
	case 11:
		s := newMaster(r).String()
		if r.Intn(2) == 0 {
			s = newMaster(r).public().String()
		}
		return wrap(s[:4] + alterB58(r, s[4:]) + bad("", "/0", "/1/*")), "an altered extended key"
	case 12:
		s := newMaster(r).String()
		return wrap(s[:4+r.Intn(len(s)-4)] + bad("", "/0", "/0/*")), "a truncated extended key"
	case 13:
		k := b58(append(append([]byte{0x80}, newMaster(r).k.FillBytes(make([]byte, 32))...), 1))
		return wrap(alterB58(r, k)), "an altered private key"
	case 14:
		return d.text + "#" + bad("", "q", "1234567", "123456789", strings.Repeat("q", r.Intn(7)), strings.Repeat("z", 9+r.Intn(100))), "a checksum of a wrong length"
	case 15:
		return d.text + "#" + descsum(d.text) + "#" + bad("", descsum(d.text)), "two checksums"
	case 16:
		return wrap(bad("[]", "[0]", "[0123456]", "[012345678]", "[0123456g]", "[012345678/0]", "[01234567/x]", "[01234567/]", "[01234567/-1]", "[01234567//0]", "[01234567/4294967296]", "[01234567][01234567]", "01234567]", "x[01234567]", "]") + d.key + d.path), "a malformed origin"
	case 17:
		k := newMaster(r)
		if r.Intn(2) == 0 {
			k = k.public()
		}
		return wrap(k.String() + "/" + bad("x", "-1", "1.5", "0//1", "", "0/", "*/0", "0/*/1", "0/**", "0/*/*", "4294967296", "99999999999999999999", "0''", "h", "'", "0h'", "+-1", "1 a", "<0;1>", "0/é")), "a malformed path"
	case 18:
		k := newMaster(r)
		return wrap(k.String() + "/" + bad("2147483648'", "4294967295h", "2147483648'/*")), "a hardened step out of range"
	case 19:
		return wrap(bad("tpub", "tprv", "ypub", "zpub", "XPUB", "xpu") + newMaster(r).public().String()[4:]), "an extended key of another kind"
	case 20:
		return wrap("xpub" + bad("", "x", strings.Repeat("1", r.Intn(200)), strings.Repeat("z", 111), "661MyMwAqRbcF", "0OIl")), "no extended key"
	}
	t := d.text
	return t[:r.Intn(len(t)-1)], "truncated"
}

func alterB58(r *rand.Rand, s string) string {
	const al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	b := []byte(s)
	i := r.Intn(len(b))
	for o := b[i]; b[i] == o; {
		b[i] = al[r.Intn(58)]
	}
	return string(b)
}

// lenient are the malformed descriptors the parser of the dependency is known
// to accept.
func lenient(r *rand.Rand) (key, text string) {
	d := newDesc(r, false)
	for strings.HasPrefix(d.prefix, "w") {
		d = newDesc(r, false)
	}
	k := newMaster(r)
	plain := hex.EncodeToString(k.p.compressed())
	switch r.Intn(5) {
	case 0:
		sum := []byte(descsum(d.text))
		for i, o := r.Intn(8), sum[0]; ; {
			o = sum[i]
			if sum[i] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[r.Intn(32)]; sum[i] != o {
				break
			}
		}
		return "wrong checksum accepted", d.text + "#" + string(sum)
	case 1:
		if r.Intn(2) == 0 {
			return "text around the expression accepted", d.text + []string{"x", "zzz", "/0", "*", "elwpkh"}[r.Intn(5)]
		}
		return "text around the expression accepted", []string{"!", "x ", "/", "*", "("}[r.Intn(5)] + "/" + d.text
	case 2:
		return "path after a plain key accepted", "elwpkh(" + plain + []string{"/0", "/*", "/x", "/0/*", "/1'"}[r.Intn(5)] + ")"
	case 3:
		if r.Intn(2) == 0 {
			return "uncompressed key accepted", "elwpkh(" + b58(append([]byte{0x80}, k.k.FillBytes(make([]byte, 32))...)) + ")"
		}
		return "uncompressed key accepted", "elwpkh(" + hex.EncodeToString(k.p.uncompressed()) + ")"
	}
	return "unhardened step out of range accepted", "elwpkh(" + k.String() + "/" + []string{"2147483648", "4294967295", "2147483648/*", "0x1", "010", "1_0"}[r.Intn(6)] + ")"
}

func TestC20(t *testing.T) {
	hx.Main(t, "C20", "A case is a descriptor (of every supported kind, or malformed in one of many ways) and a chain that pays to its scripts, to the ones after them and to others. The scripts are derived by an implementation of the harness (BIP 32, secp256k1). Distinct by descriptor and payments.", func(r *hx.Run) {
		r.TolerateLeaks()
		r.Require("reports", "public key", "private key", "extended public key", "extended private key, hardened path", "range of public keys", "range of private keys", "range of private keys, hardened path", "with origin", "with checksum", "last of a range", "beyond a range", "malformed", "start refused", "documented form")

		r.Cases("valid", r.N(140, 3000), func(c *hx.Case) {
			c.Bubble(func() {
				d := randDesc(c.Rand)
				text := d.text
				if c.Rand.Intn(2) == 0 {
					text += "#" + descsum(text)
					c.Count("with checksum", 1)
				}
				if d.origin != "" {
					c.Count("with origin", 1)
				}
				if d.prefix == "wpkh" {
					c.Count("documented form", 1)
				}
				c.Count(d.kind, 1)
				c.Log("%s: %s", d.kind, text)
				w := newWorld(c, 2)
				total := 1 + c.Rand.Intn(8)
				for i := 0; i < total; i++ {
					if c.Rand.Intn(4) == 0 {
						w.mine(20)
						continue
					}
					var txs []*hx.Tx
					for n := 1 + c.Rand.Intn(3); n > 0; n-- {
						var to [][]byte
						for k := 1 + c.Rand.Intn(4); k > 0; k-- {
							switch x := c.Rand.Intn(10); {
							case x == 0 && d.beyond != nil:
								to = append(to, d.beyond[c.Rand.Intn(len(d.beyond))])
								c.Count("beyond a range", 1)
							case x == 1 && d.beyond != nil:
								to = append(to, d.scripts[len(d.scripts)-1])
								c.Count("last of a range", 1)
							case x == 2: // almost
								s := append([]byte(nil), d.scripts[c.Rand.Intn(len(d.scripts))]...)
								s[2+c.Rand.Intn(20)] ^= 1
								to = append(to, s)
							case x == 3:
								to = append(to, randScript(c.Rand))
							case x == 4 && len(to) > 0:
								to = append(to, to[0])
							default:
								to = append(to, d.scripts[c.Rand.Intn(len(d.scripts))])
							}
						}
						txs = append(txs, hx.RandTx(c.Rand, to, c.Rand.Intn(3) == 0))
					}
					w.mineTxs(txs, nil)
				}
				initial := c.Rand.Intn(total + 1)
				for h := 1; h <= total; h++ {
					w.showFilter(uint32(h))
				}
				w.show(uint32(initial))
				s := w.scanner()
				k := newDesk(w)
				end := make(chan struct{})
				c.Cleanup(func() { s.Stop(); close(end) })
				ch, err := s.Start()
				if err != nil {
					c.Violate("start fails", "Start: %v", err)
					c.Abort()
				}
				k.listen(ch, end, nil)
				start := c.Rand.Intn(total + 2)
				id := randUUID(c.Rand)
				events := []scanner.EventType{scanner.UnspentUtxo}
				switch c.Rand.Intn(6) {
				case 0:
					events = append(events, scanner.UnspentUtxo)
				case 1:
					events = append(events, scanner.SpentUtxo)
				case 2:
					events = []scanner.EventType{scanner.SpentUtxo, scanner.UnspentUtxo, scanner.SpentUtxo}
				}
				if err := s.WatchDescriptorWallet(id, text, events, start); err != nil {
					c.Violate("refused", "%s: %s with events %v from %d is refused: %v", d.kind, text, events, start, err)
					return
				}
				for _, sc := range d.scripts {
					k.reqs = append(k.reqs, request{id: id, start: uint32(start), pers: true, it: item{what: fmt.Sprintf("unspent %x", sc), script: sc}})
				}
				for h := initial; h < total; {
					time.Sleep(ms(c.Rand, 2000))
					h += 1 + c.Rand.Intn(3)
					w.show(uint32(h))
				}
				c.Settle(time.Minute)
				due := k.compare("watching " + text)
				c.Count("reports", due)
				c.Sig("%s %d %d %d", text, total, start, due)
				c.Sample(map[string]interface{}{"descriptor": text, "kind": d.kind, "start": start, "blocks": total, "reports": due})
			})
		})

		try := func(c *hx.Case, text string, ev []scanner.EventType, start int) (err error) {
			w := newWorld(c, 1)
			s := w.scanner()
			k := newDesk(w)
			end := make(chan struct{})
			defer close(end)
			defer s.Stop()
			ch, e := s.Start()
			if e != nil {
				c.Violate("start fails", "Start: %v", e)
				c.Abort()
			}
			k.listen(ch, end, nil)
			t := time.Now()
			err = s.WatchDescriptorWallet(randUUID(c.Rand), text, ev, start)
			if d := time.Since(t); d > time.Second {
				c.Violate("slow refusal", "%q took %v", text, d)
			}
			time.Sleep(3 * time.Second)
			if n := w.calls.Load(); err != nil && n > 0 {
				c.Violate("refused but watched", "%q is refused (%v), yet the scanner looks for something: %d calls", text, err, n)
			}
			return err
		}
		events := func(r *rand.Rand) []scanner.EventType {
			return [][]scanner.EventType{{scanner.UnspentUtxo}, {scanner.UnspentUtxo}, {scanner.SpentUtxo}, {scanner.SpentUtxo, scanner.UnspentUtxo}}[r.Intn(4)]
		}

		r.Cases("malformed", r.N(2500, 60000), func(c *hx.Case) {
			c.Bubble(func() {
				text, how := malformed(c.Rand)
				c.Log("%s: %q", how, text)
				c.Count("malformed", 1)
				c.Count("malformed: "+how, 1)
				ev := events(c.Rand)
				if err := try(c, text, ev, c.Rand.Intn(10)); err == nil {
					c.Violate("accepted: "+how, "%q (%s) is accepted for %v", text, how, ev)
				}
				c.Sig("%s", text)
			})
		})

		// known to be accepted
		r.Cases("lenient", r.N(100, 1000), func(c *hx.Case) {
			c.Bubble(func() {
				key, text := lenient(c.Rand)
				c.Log("%s: %q", key, text)
				if err := try(c, text, events(c.Rand), 0); err == nil {
					c.Count("accepted by the lenient parser", 1)
					c.R.Known(key)
				}
				c.Sig("%s", text)
			})
		})

		r.Cases("start", r.N(100, 2000), func(c *hx.Case) {
			c.Bubble(func() {
				d := newDesc(c.Rand, false)
				start := []int{-1, -1 - c.Rand.Intn(1000), math.MinInt64, math.MinInt32, math.MaxUint32 + 1, math.MaxInt64, 1<<40 + c.Rand.Intn(100), 1<<32 + c.Rand.Intn(10)}[c.Rand.Intn(8)]
				c.Log("%s from %d", d.text, start)
				c.Count("start refused", 1)
				if err := try(c, d.text, events(c.Rand), start); err == nil {
					c.Violate("invalid start accepted", "start height %d is accepted", start)
				}
				c.Sig("%d %s", start, d.kind)
			})
		})
	})
}
