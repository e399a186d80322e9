package nodex

import (
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

func TestC11(t *testing.T) {
	hx.Main(t, "C11", "Each case is a node with one to eight peers, some of which cannot be written to for transactions or stop reading; users send transactions (plain, witness, issuances, peg-ins, large ones, also several times and at once) and strings that are none, while headers are synced and transactions come from the peers. What each peer got is compared with what was sent. Distinct by peers, failures and what was sent.", func(r *hx.Run) {
		r.TolerateLeaks() // they are C13's
		r.Require("transactions sent", "deliveries checked", "failures reported", "crowds of peers", "strings refused", "transactions sent at once", "cases with failing peers", "peers that do not read")
		r.Cases("send", r.N(3000, 60000), caseSend)
	})
}

func notTx(c *hx.Case, raw []byte) (string, string) {
	r := c.Rand
	h := hex.EncodeToString(raw)
	switch r.Intn(9) {
	case 0:
		return "", "empty"
	case 1:
		return h[:2*r.Intn(len(raw))], "truncated"
	case 2:
		return h[:len(h)-1], "odd"
	case 3:
		i := r.Intn(len(h))
		return h[:i] + "g" + h[i+1:], "not hex"
	case 4:
		return h + hex.EncodeToString(hx.RandBytes(r, 1+r.Intn(40))), "trailing bytes"
	case 5:
		return h + h, "two transactions"
	case 6:
		return "0x" + h, "prefixed"
	case 7:
		return " " + h + "\n", "blanks"
	default:
		return hex.EncodeToString(raw[:len(raw)-1-r.Intn(3)]), "truncated a little"
	}
}

func caseSend(c *hx.Case) {
	c.Bubble(func() {
		r := c.Rand
		net := nets[r.Intn(3)]
		f := NewFix(c, net)
		w := &World{Ch: hx.NewChain(r, net, pick(r, 1, 3, 30))}
		lr := newLocked(r)
		np := 1 + r.Intn(8)
		if r.Intn(40) == 0 {
			np = pick(r, 16, 40, 130)
			c.Count("crowds of peers", 1)
		}
		var ps []*hx.Peer
		bad := make([]bool, np)
		hung := make([]bool, np)
		nbad := 0
		// stuck says whether there is a peer that does not read and is connected
		stuck := func() bool {
			for i := range hung {
				if hung[i] && !ps[i].C.IsClosed() {
					return true
				}
			}
			return false
		}
		everHung := false
		hang := pick(r, 0, 0, 0, 1, 2)
		// failing counts the peers that fail and are connected
		failing := func() (n int) {
			for i := range bad {
				if bad[i] && !ps[i].C.IsClosed() {
					n++
				}
			}
			return
		}
		judge := func(nbad int, was bool, err error, took time.Duration) bool {
			if (nbad > 0 || was) && err == nil {
				c.Violate("wrong report", "%d of %d peers cannot be written to (one does not read: %v), SendTransaction returns %v", nbad, np, was, err)
				return false
			}
			if nbad == 0 && !was && err != nil && !everHung {
				c.Violate("wrong report", "all of the %d peers can be written to, SendTransaction returns %v", np, err)
				return false
			}
			if took > 3*time.Minute {
				c.Violate("held up", "SendTransaction returns after %v", took)
				return false
			}
			return true
		}
		some := r.Intn(3) > 0
		for i := 0; i < np; i++ {
			h := f.Honest(w)
			h.Batch = pick(r, 1, 10, 2000)
			h.Delay = lr.ms(pick(r, 0, 1, 20))
			p := h.Peer(string(rune('A' + i)))
			if some && r.Intn(3) == 0 {
				bad[i] = true
				nbad++
				p.C.FailWrites(func(_ int, b []byte) error {
					if m, _, ok := hx.Take(b); !ok || m.Cmd == "tx" {
						return errors.New("broken pipe")
					}
					return nil
				})
			}
			ps = append(ps, p)
		}
		f.Start(ps[0])
		for _, p := range ps[1:] {
			if err := f.Connect(p); err != nil {
				c.Violate("a peer is refused", "AddOutboundPeer: %v", err)
				return
			}
		}
		if !wait(20*time.Second, func() bool {
			for _, p := range ps {
				if len(p.Sent("sendheaders")) == 0 {
					return false
				}
			}
			return true
		}) {
			c.Violate("no handshake", "the handshake with %d peers is not completed", np)
			return
		}
		c.Settle(0) // the last one is known now
		want := map[string]int{}
		sent, refused, reported := 0, 0, 0
		kinds := ""
		var txs []*hx.Tx
		steps := 1 + r.Intn(6)
		for k := 0; k < steps; k++ {
			time.Sleep(time.Duration(lr.Intn(pick(r, 1, 2000))+1) * time.Millisecond)
			if hang > 0 && np > 1 && r.Intn(2) == 0 {
				hang--
				c.Count("peers that do not read", 1)
				i := r.Intn(np)
				hung[i] = true
				ps[i].C.Stall()
				everHung = true
			}
			sc := [][]byte{hx.P2WPKH(r)}
			for i := r.Intn(3); i > 0; i-- {
				sc = append(sc, hx.P2WPKH(r))
			}
			if r.Intn(12) == 0 {
				for i := pick(r, 252, 253, 1000); i > 0; i-- {
					sc = append(sc, hx.P2WPKH(r))
				}
			}
			t := hx.RandTx(r, sc, r.Intn(3) > 0)
			if len(txs) > 0 && r.Intn(5) == 0 {
				t = txs[r.Intn(len(txs))]
			}
			txs = append(txs, t)
			raw := t.Bytes()
			switch q := r.Intn(8); {
			case q < 3:
				s, kind := notTx(c, raw)
				kinds += kind + ","
				if err := f.N.SendTransaction(s); err == nil {
					c.Violate("string that is no transaction accepted", "SendTransaction accepts a string (%s) of %d characters: %.200s", kind, len(s), s)
					return
				}
				refused++
			case q == 3: // several at once
				m := 2 + r.Intn(4)
				errs := make(chan error, m)
				bads, was, begun := failing(), stuck(), time.Now()
				for i := 0; i < m; i++ {
					x := t
					if i > 0 && r.Intn(2) == 0 {
						x = hx.RandTx(r, [][]byte{hx.P2WPKH(r)}, true)
					}
					b := x.Bytes()
					want[string(b)]++
					c.Go(func() { errs <- f.N.SendTransaction(hex.EncodeToString(b)) })
				}
				for i := 0; i < m; i++ {
					if err := <-errs; !judge(bads, was, err, time.Since(begun)) {
						return
					}
				}
				sent += m
				kinds += "several,"
				c.Count("transactions sent at once", m)
			case q == 4: // a peer sends one: it is no reason to send any
				kinds += "peer's,"
				ps[r.Intn(np)].Msg(f.M, "tx", raw)
			default:
				s := hex.EncodeToString(raw)
				if r.Intn(4) == 0 {
					s = strings.ToUpper(s)
				}
				bads, was, begun := failing(), stuck(), time.Now()
				err := f.N.SendTransaction(s)
				want[string(raw)]++
				sent++
				kinds += fmt.Sprintf("tx %d,", len(raw))
				if !judge(bads, was, err, time.Since(begun)) {
					return
				}
				if err != nil {
					reported++
				}
			}
		}
		c.Settle(5 * time.Second)
		for i, p := range ps {
			got := map[string]int{}
			for _, m := range p.Sent("tx") {
				if err := m.Check(f.M); err != nil {
					c.Violate("malformed message", "%v", err)
					return
				}
				got[string(m.Payload)]++
				if want[string(m.Payload)] == 0 {
					c.Violate("wrong transaction sent", "peer %s is sent %d bytes that are none of the transactions: %.200x", p.Name, len(m.Payload), m.Payload)
					return
				}
			}
			if l := p.Left(); len(l) > 0 && !hung[i] {
				c.Violate("incomplete message", "peer %s was sent %d bytes that are no message", p.Name, len(l))
				return
			}
			if bad[i] || hung[i] {
				continue
			}
			for b, n := range want {
				if got[b] != n {
					c.Violate("transaction not delivered once", "peer %s (of %d, %d failing) got a transaction of %d bytes %d times instead of %d", p.Name, np, nbad, len(b), got[b], n)
					return
				}
				c.Count("deliveries checked", n)
			}
		}
		c.Count("transactions sent", sent)
		c.Count("strings refused", refused)
		c.Count("failures reported", reported)
		if nbad > 0 {
			c.Count("cases with failing peers", 1)
		}
		c.Sig("peers=%d bad=%v hung=%v %s", np, bad, hung, kinds)
		c.Sample(map[string]interface{}{"peers": np, "failing": nbad, "calls": kinds})
	})
}
