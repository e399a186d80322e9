package blockx

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// answer is how the explorer answers a request.
type answer struct {
	how    string
	status int
	body   []byte
	header map[string]string
	raw    func(c net.Conn, b *bufio.ReadWriter) // takes the connection over
	flush  int                                   // send in pieces of this size
	only   string                                // what must come of it: block, not found, error, or either
}

// explorer answers what the case of a request's prefix says.
type explorer struct {
	url   string
	cases sync.Map // prefix -> func(hash string) *answer
	c     *hx.Case
}

func newExplorer() *explorer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	e := &explorer{url: "http://" + l.Addr().String()}
	srv := &http.Server{Handler: e, ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(l)
	return e
}

func (e *explorer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.Split(r.URL.Path, "/") // /case/api/block/hash/raw
	if len(p) < 2 {
		http.NotFound(w, r)
		return
	}
	f, ok := e.cases.Load(p[1])
	if !ok || len(p) != 6 || p[2] != "api" || p[3] != "block" || p[5] != "raw" || r.Method != "GET" {
		w.WriteHeader(405)
		return
	}
	a := f.(func(string) *answer)(p[4])
	if a == nil {
		w.WriteHeader(418)
		return
	}
	if a.raw != nil {
		conn, rw, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		defer conn.Close()
		a.raw(conn, rw)
		return
	}
	for k, v := range a.header {
		w.Header().Set(k, v)
	}
	w.WriteHeader(a.status)
	body := a.body
	if a.flush == 0 {
		w.Write(body)
		return
	}
	for len(body) > 0 {
		n := min(a.flush, len(body))
		if _, err := w.Write(body[:n]); err != nil {
			return
		}
		w.(http.Flusher).Flush()
		body = body[n:]
	}
}

func gz(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

// blkOf makes a body of a header and transactions.
func blkOf(h *hx.Header, txs []*hx.Tx) []byte { return (&hx.Blk{H: h, Txs: txs}).Raw() }

var silent = []string{"says nothing", "stops in the middle", "drips"}

var modes = []string{"as it is", "in pieces", "gzipped", "not found", "not found with the block", "status", "status with the block", "another block", "truncated", "flipped bit", "flipped byte", "longer",
	"empty", "text", "hex", "no transactions", "fewer transactions", "more transactions", "repeated transactions", "other order", "transactions of another", "header of another", "changed transaction", "changed header", "random",
	"closed", "closed in the middle", "shorter than announced", "bad chunk", "bad gzip", "no http", "redirect"}

func plan(c *hx.Case, e *explorer, prefix, how string, b, other *hx.Blk) *answer {
	r := c.Rand
	raw := b.Raw()
	a := &answer{how: how, status: 200, body: raw, only: "error or the block"}
	switch how {
	case "as it is":
		a.only = "block"
	case "in pieces":
		a.only, a.flush = "block", 1+r.Intn(len(raw)/3+1)
	case "gzipped":
		a.only, a.body, a.header = "block", gz(raw), map[string]string{"Content-Encoding": "gzip"}
	case "not found":
		a.only, a.status, a.body = "not found", 404, []byte("Block not found")
	case "not found with the block":
		a.only, a.status = "not found", 404
	case "status", "status with the block":
		a.only = "error"
		a.status = []int{201, 202, 203, 206, 299, 300, 305, 400, 401, 403, 405, 408, 410, 429, 500, 501, 502, 503, 504, 599, 204, 304}[r.Intn(22)]
		if how == "status" {
			a.body = []byte("whatever")
		}
		if a.status == 204 || a.status == 304 {
			a.body = nil
		}
		if a.status < 300 && a.body != nil {
			a.only = "error or the block"
			if how == "status" {
				a.only = "error"
			}
		}
	case "another block":
		a.body, a.only = other.Raw(), "error"
	case "truncated":
		a.body = raw[:r.Intn(len(raw))]
		if len(a.body) < len(blkOf(b.H, nil)) || !b.Txs[len(b.Txs)-1].Witness {
			a.only = "error" // else what is missing may be witness data, which nothing commits to
		}
	case "flipped bit":
		x := bytes.Clone(raw)
		i := r.Intn(len(x))
		x[i] ^= 1 << r.Intn(8)
		a.body = x
	case "flipped byte":
		x := bytes.Clone(raw)
		for n := 1 + r.Intn(3); n > 0; n-- {
			x[r.Intn(len(x))] = byte(r.Intn(256))
		}
		a.body = x
	case "longer":
		a.body = hx.Cat(raw, hx.RandBytes(r, 1+r.Intn(100)))
	case "empty":
		a.body, a.only = nil, "error"
	case "text":
		a.body, a.only = []byte([]string{"{}", "null", "Block not found", "<html><body>502</body></html>", "{\"error\":\"too many requests\"}"}[r.Intn(5)]), "error"
	case "hex":
		a.body, a.only = []byte(hex.EncodeToString(raw)), "error"
	case "no transactions":
		a.body, a.only = blkOf(b.H, nil), "error"
	case "fewer transactions":
		i := r.Intn(len(b.Txs))
		a.body, a.only = blkOf(b.H, append(append([]*hx.Tx{}, b.Txs[:i]...), b.Txs[i+1:]...)), "error"
	case "more transactions":
		l := append([]*hx.Tx{}, b.Txs...)
		i := r.Intn(len(l) + 1)
		a.body, a.only = blkOf(b.H, append(l[:i:i], append([]*hx.Tx{hx.RandTx(r, [][]byte{hx.P2WPKH(r)}, false)}, l[i:]...)...)), "error"
	case "repeated transactions": // some have the same root
		l := append([]*hx.Tx{}, b.Txs...)
		k := 1 << r.Intn(3)
		if k > len(l) {
			k = len(l)
		}
		if n := len(l) % (2 * k); n > 0 && len(l) > k && r.Intn(3) > 0 {
			k = n
		}
		a.body, a.only = blkOf(b.H, append(l, l[len(l)-k:]...)), "error"
	case "other order":
		if len(b.Txs) < 2 {
			return nil
		}
		l := append([]*hx.Tx{}, b.Txs...)
		i := r.Intn(len(l) - 1)
		l[i], l[i+1] = l[i+1], l[i]
		a.body, a.only = blkOf(b.H, l), "error"
	case "transactions of another":
		a.body, a.only = blkOf(b.H, other.Txs), "error"
	case "header of another":
		a.body, a.only = blkOf(other.H, b.Txs), "error"
	case "changed transaction":
		l := append([]*hx.Tx{}, b.Txs...)
		i := r.Intn(len(l))
		t := *l[i]
		switch r.Intn(4) {
		case 0:
			t.Version++
		case 1:
			t.Locktime ^= 1
		case 2:
			t.Ins = append([]hx.TxIn{}, t.Ins...)
			t.Ins[0].Seq ^= 1
		default:
			t.Outs = append([]hx.TxOut{}, t.Outs...)
			t.Outs[0].Script = hx.P2WPKH(r)
		}
		l[i] = &t
		a.body, a.only = blkOf(b.H, l), "error"
	case "changed header": // on purpose, with transactions that fit
		h := *b.H
		txs := b.Txs
		switch r.Intn(4) {
		case 0:
			h.Time++
		case 1:
			h.Height ^= 1
		case 2:
			h.Prev = hx.RandHash(r)
		default:
			txs = append(append([]*hx.Tx{}, b.Txs...), hx.RandTx(r, [][]byte{hx.P2WPKH(r)}, false))
			var ids []hx.Hash
			for _, t := range txs {
				ids = append(ids, t.ID())
			}
			h.Merkle = hx.MerkleRoot(ids)
		}
		a.body, a.only = blkOf(&h, txs), "error"
	case "random":
		a.body, a.only = hx.RandBytes(r, r.Intn(2000)), "error"
	case "closed":
		a.only, a.raw = "error", func(c net.Conn, b *bufio.ReadWriter) {}
	case "closed in the middle", "shorter than announced":
		n := r.Intn(len(raw))
		a.only, a.raw = "error", func(c net.Conn, b *bufio.ReadWriter) {
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(raw))
			c.Write(raw[:n])
			if how == "closed in the middle" {
				c.(*net.TCPConn).SetLinger(0)
			}
		}
	case "bad chunk":
		n := r.Intn(len(raw))
		a.only, a.raw = "error", func(c net.Conn, b *bufio.ReadWriter) {
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n", n)
			c.Write(raw[:n])
			fmt.Fprintf(c, "\r\nzz\r\n")
		}
	case "bad gzip":
		x := gz(raw)
		a.only, a.body, a.header = "error", x[:len(x)-1-r.Intn(len(x)-1)], map[string]string{"Content-Encoding": "gzip"}
	case "no http":
		a.only, a.raw = "error", func(c net.Conn, b *bufio.ReadWriter) { c.Write(raw) }
	case "redirect":
		a.status, a.body = 302, nil
		a.header = map[string]string{"Location": e.url + "/" + prefix + "/api/block/" + []string{b.Hash.String(), other.Hash.String()}[r.Intn(2)] + "/raw"}
	case "says nothing":
		a.only, a.raw = "error", func(c net.Conn, b *bufio.ReadWriter) { io.Copy(io.Discard, c) }
	case "stops in the middle":
		n := r.Intn(len(raw))
		a.only, a.raw = "error", func(c net.Conn, b *bufio.ReadWriter) {
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(raw))
			c.Write(raw[:n])
			io.Copy(io.Discard, c)
		}
	case "drips":
		a.only, a.raw = "error", func(c net.Conn, b *bufio.ReadWriter) {
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", 10000)
			for {
				if _, err := c.Write([]byte{1}); err != nil {
					return
				}
				time.Sleep(500 * time.Millisecond)
			}
		}
	}
	if a.raw == nil && hx.Outsized("block", a.body) {
		return nil // C02
	}
	if bytes.Equal(a.body, raw) && a.only == "error" && a.status == 200 && a.raw == nil {
		a.only = "error or the block"
	}
	return a
}

// judge compares a result with the block asked for.
func judge(b *hx.Blk, got *block.Block, err error, same bool) string {
	if err != nil {
		if errors.Is(err, blockservice.ErrorBlockNotFound) {
			return "not found"
		}
		return "error"
	}
	if got == nil || got.Header == nil || got.TransactionsData == nil {
		return "neither a block nor an error"
	}
	h, herr := got.Header.Hash()
	if herr != nil {
		return "a block without hash: " + herr.Error()
	}
	if !h.IsEqual(hx.CH(b.Hash)) {
		return fmt.Sprintf("block %v instead of %v", h, b.Hash)
	}
	l := got.TransactionsData.Transactions
	if len(l) != len(b.IDs) {
		return fmt.Sprintf("%d transactions instead of %d", len(l), len(b.IDs))
	}
	for i, t := range l {
		if t.TxHash() != chainhash.Hash(b.IDs[i]) {
			return fmt.Sprintf("another transaction at place %d", i)
		}
		if same {
			if s, err := t.Serialize(); err != nil || !bytes.Equal(s, b.Txs[i].Bytes()) {
				return fmt.Sprintf("transaction %d is %x instead of %x (%v)", i, s, b.Txs[i].Bytes(), err)
			}
		}
	}
	return "block"
}

// largeBlock returns transactions of some megabytes, or thousands of them.
func largeBlock(c *hx.Case) []*hx.Tx {
	var txs []*hx.Tx
	n, outs := 250+c.Rand.Intn(10), 1 // on both sides of a longer count
	switch c.Rand.Intn(4) {
	case 0:
		n, outs = 1000+c.Rand.Intn(4000), 1
	case 1:
		n, outs = 1+c.Rand.Intn(20), 1000+c.Rand.Intn(2000)
	case 2:
		n, outs = 40+c.Rand.Intn(200), 200+c.Rand.Intn(100)
	}
	var to [][]byte
	for len(to) < outs {
		to = append(to, hx.P2WPKH(c.Rand))
	}
	size := 0
	for ; n > 0; n-- {
		t := hx.RandTx(c.Rand, to, c.Rand.Intn(2) == 0)
		size += len(t.Bytes())
		txs = append(txs, t)
	}
	if size > 4_000_000 {
		c.Count("blocks of more than 4 MB", 1)
	}
	c.Count("large blocks", 1)
	return txs
}

func TestC25(t *testing.T) {
	hx.Main(t, "C25", "A case is a generated chain served by an explorer over loopback that answers each request in one of 35 ways (right, wrong, broken, silent), with several requests at once: what GetBlock returns is compared with the chain. Distinct by blocks, ways and results.", func(r *hx.Run) {
		e := newExplorer()
		for _, m := range append(append([]string{}, modes...), silent...) {
			r.Require(m)
		}
		r.Require("blocks returned", "errors returned", "not found returned", "requests at once", "large blocks")
		r.CaseTime(3 * time.Minute)
		ask := func(c *hx.Case, svc blockservice.BlockService, b *hx.Blk, a *answer) {
			from := time.Now()
			h := hx.CH(b.Hash)
			type result struct {
				b   *block.Block
				err error
			}
			ch := make(chan result, 1)
			go func() {
				b, err := svc.GetBlock(h)
				ch <- result{b, err}
			}()
			var got *block.Block
			var err error
			select {
			case r := <-ch:
				got, err = r.b, r.err
			case <-time.After(75 * time.Second):
				c.Violate("no end", "GetBlock does not return when the explorer %s", a.how)
				return
			}
			if !h.IsEqual(hx.CH(b.Hash)) {
				c.Violate("hash of the caller changed", "%v became %v", b.Hash, h)
			}
			res := judge(b, got, err, a.only == "block")
			c.Log("%s: %s %v", a.how, res, err)
			if d := time.Since(from); d > time.Minute {
				c.Violate("no end", "GetBlock takes %v when the explorer %s", d, a.how)
			}
			switch {
			case res == "block" && a.only != "block" && a.only != "error or the block":
				c.Violate("block instead of "+a.only, "a block is returned when the explorer's answer is: %s, status %d, %x", a.how, a.status, cut(a.body))
			case res != "block" && res != "error" && res != "not found":
				c.Violate("wrong block", "%s: %s, status %d, body %x", res, a.how, a.status, cut(a.body))
			case a.only == "block" && res != "block":
				c.Violate("right block refused", "%s: %v, the block is %x", a.how, err, cut(b.Raw()))
			case a.only == "not found" && res != "not found":
				c.Violate("missing block not reported as such", "%s: %s %v", a.how, res, err)
			case a.only != "not found" && res == "not found":
				c.Violate("failure reported as a missing block", "%s, status %d: %v", a.how, a.status, err)
			}
			c.Count(a.how, 1)
			switch res {
			case "block":
				c.Count("blocks returned", 1)
			case "error":
				c.Count("errors returned", 1)
			case "not found":
				c.Count("not found returned", 1)
			}
		}
		scene := func(c *hx.Case, group string, ways []string) {
			ch := hx.NewChain(c.Rand, []string{"liquid", "testnet", "regtest"}[c.Rand.Intn(3)], 0)
			n := 2 + c.Rand.Intn(4)
			if group == "l" {
				n = 2
			}
			for ; n > 0; n-- {
				var txs []*hx.Tx
				if group == "l" {
					txs = largeBlock(c)
				}
				for k := c.Rand.Intn([]int{3, 9, 20}[c.Rand.Intn(3)]); k > 0; k-- {
					txs = append(txs, hx.RandTx(c.Rand, [][]byte{hx.P2WPKH(c.Rand), hx.P2WPKH(c.Rand)}[:1+c.Rand.Intn(2)], c.Rand.Intn(2) == 0))
				}
				ch.Add(txs)
			}
			svc := blockservice.NewEsploraBlockService(e.url + "/" + group + fmt.Sprint(c.Idx) + "/api")
			prefix := group + fmt.Sprint(c.Idx)
			var mu sync.Mutex
			answers := map[string]*answer{} // one per block
			e.cases.Store(prefix, func(hash string) *answer {
				mu.Lock()
				defer mu.Unlock()
				return answers[hash]
			})
			defer e.cases.Delete(prefix)
			sig := ""
			for len(ways) > 0 {
				// as many at once as there are blocks
				var wg sync.WaitGroup
				n := 0
				type job struct {
					b *hx.Blk
					a *answer
				}
				var jobs []job
				mu.Lock()
				for _, b := range ch.Blks[1:] {
					delete(answers, b.Hash.String())
				}
				for _, i := range c.Rand.Perm(len(ch.Blks) - 1) {
					b := ch.Blks[1+i]
					if len(ways) == 0 {
						break
					}
					how := ways[0]
					ways = ways[1:]
					other := ch.Blks[1+c.Rand.Intn(len(ch.Blks)-1)]
					if other == b {
						other = ch.Blks[1+(i+1)%(len(ch.Blks)-1)]
					}
					if a := plan(c, e, prefix, how, b, other); a != nil {
						if how == "redirect" { // where to is answered as the others say
							a.only = "error or the block"
							if strings.Contains(a.header["Location"], b.Hash.String()) {
								a.only = "error"
							}
						}
						answers[b.Hash.String()] = a
						jobs = append(jobs, job{b, a})
						sig += fmt.Sprintf(" %s %d", how, len(a.body))
					}
				}
				mu.Unlock()
				for _, j := range jobs {
					wg.Add(1)
					n++
					c.Go(func() {
						defer wg.Done()
						if j.a.how == "redirect" && j.a.only != "error" {
							// the other block's answer: anything but another block
							res, err := svc.GetBlock(hx.CH(j.b.Hash))
							if x := judge(j.b, res, err, false); x != "error" && x != "block" && x != "not found" {
								c.Violate("wrong block", "%s: %s", j.a.how, x)
							}
							c.Count(j.a.how, 1)
							return
						}
						ask(c, svc, j.b, j.a)
					})
				}
				wg.Wait()
				if n > 1 {
					c.Count("requests at once", n)
				}
			}
			c.Sig("%s %s", ch.Tip().Hash, sig)
		}
		r.Cases("answers", r.N(1500, 20000), func(c *hx.Case) {
			var ways []string
			for i := 0; i < 12; i++ {
				ways = append(ways, modes[c.Rand.Intn(len(modes))])
			}
			ways[0] = modes[c.Idx%len(modes)]
			scene(c, "a", ways)
		})
		r.Cases("large", r.N(10, 200), func(c *hx.Case) {
			scene(c, "l", []string{"as it is", "gzipped", "in pieces", "truncated", "fewer transactions", "repeated transactions", "as it is"})
		})
		r.Workers(64)
		r.Cases("silence", r.N(24, 200), func(c *hx.Case) {
			scene(c, "s", []string{silent[c.Idx%3], "as it is", silent[c.Rand.Intn(3)]})
		})
		r.Cases("no explorer", 3, func(c *hx.Case) {
			ch := hx.NewChain(c.Rand, "regtest", 1)
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				c.Errorf("listen: %v", err)
			}
			u := []string{"http://" + l.Addr().String(), "http://127.0.0.1:0", "not a url\x7f"}[c.Idx]
			l.Close()
			b, err := blockservice.NewEsploraBlockService(u).GetBlock(hx.CH(ch.Tip().Hash))
			if res := judge(ch.Tip(), b, err, false); res != "error" {
				c.Violate("failure not reported", "no explorer at %q: %s", u, res)
			}
			c.Sig("%d", c.Idx)
		})
	})
}

func cut(b []byte) []byte {
	if len(b) > 3000 {
		return b[:3000]
	}
	return b
}
