package codec

import (
	"encoding/hex"
	"io"
	"math/rand"
	"runtime"
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

var nasty = [][]byte{
	{0xfd, 0xff, 0xff}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xfe, 0, 0, 0, 0x40}, {0xfe, 0xff, 0xff, 0xff, 0x7f}, {0xfe, 0, 0, 0, 0x80},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xff, 0, 0, 0, 0, 1, 0, 0, 0},
	{0xff, 0, 0, 0, 0x80, 0, 0, 0, 0}, {0xff}, {0xfe}, {0xfd}, {0}, {0xfe, 0, 0, 0x10, 0}, {0xff, 0xff, 0xff, 0xff, 0x0f, 0, 0, 0, 0},
}

// mutate changes valid bytes.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(3); n > 0; n-- {
		at := 0
		if len(b) > 0 {
			at = r.Intn(len(b))
			if r.Intn(2) == 0 && len(b) > 100 { // counts are often at the start
				at = r.Intn(100)
			}
		}
		switch r.Intn(7) {
		case 0:
			if len(b) > 0 {
				b[at] ^= 1 << uint(r.Intn(8))
			}
		case 1:
			b = b[:at]
		case 2: // replace by a length nobody has
			p := nasty[r.Intn(len(nasty))]
			n := len(p)
			if r.Intn(2) == 0 {
				n = 1
			}
			if at+n > len(b) {
				n = len(b) - at
			}
			b = hx.Cat(b[:at], p, b[at+n:])
		case 3:
			b = hx.Cat(b[:at], hx.RandBytes(r, r.Intn(40)), b[at:])
		case 4:
			k := at + r.Intn(40)
			if k > len(b) {
				k = len(b)
			}
			b = hx.Cat(b[:at], b[k:])
		case 5:
			p := nasty[r.Intn(len(nasty))]
			b = hx.Cat(p, b)
		case 6:
			if len(b) > 0 {
				b[at] = byte(r.Intn(256))
			}
		}
	}
	return b
}

var decoders = []struct {
	name string
	walk string // what go-elements decodes of it
	gen  func(r *rand.Rand) []byte
	dec  func(d *binary.Decoder) error
}{
	{"message header", "", func(r *rand.Rand) []byte { return hx.Frame(hx.Liquid, "inv", hx.RandBytes(r, 10))[:24] }, func(d *binary.Decoder) error {
		var v protocol.MessageHeader
		err := d.Decode(&v)
		v.Validate()
		v.CommandString()
		return err
	}},
	{"version", "", func(r *rand.Rand) []byte {
		return hx.Version{Services: 64, UserAgent: string(hx.RandBytes(r, count(r, 300)))}.Payload()
	}, func(d *binary.Decoder) error { var v protocol.MsgVersion; return d.Decode(&v) }},
	{"varstr", "", func(r *rand.Rand) []byte { return hx.VarBytes(hx.RandBytes(r, count(r, 70000))) }, func(d *binary.Decoder) error { var v protocol.VarStr; return d.Decode(&v) }},
	{"varint", "", func(r *rand.Rand) []byte { return nasty[r.Intn(len(nasty))] }, func(d *binary.Decoder) error {
		var v protocol.VarInt
		err := d.Decode(&v)
		if err == nil {
			n, err := v.Int()
			if err == nil && n < 0 {
				panic("negative varint")
			}
		}
		return err
	}},
	{"ipv4", "", func(r *rand.Rand) []byte { return hx.RandBytes(r, 16) }, func(d *binary.Decoder) error { var v protocol.IPv4; return d.Decode(&v) }},
	{"ping", "", func(r *rand.Rand) []byte { return hx.RandBytes(r, 8) }, func(d *binary.Decoder) error { var v protocol.MsgPing; return d.Decode(&v) }},
	{"sendcmpct", "", func(r *rand.Rand) []byte { return hx.RandBytes(r, 9) }, func(d *binary.Decoder) error { var v protocol.MsgSendCmpct; return d.Decode(&v) }},
	{"inv", "", func(r *rand.Rand) []byte {
		var l []hx.Inv
		for n := count(r, 600); n > 0; n-- {
			l = append(l, hx.Inv{Type: 1, Hash: hx.RandHash(r)})
		}
		return hx.InvPayload(l)
	}, func(d *binary.Decoder) error { var v protocol.MsgInv; return d.Decode(&v) }},
	{"getheaders", "", func(r *rand.Rand) []byte {
		g := hx.GetHeaders{Version: 70016}
		for n := count(r, 500); n > 0; n-- {
			g.Locator = append(g.Locator, hx.RandHash(r))
		}
		return g.Payload()
	}, func(d *binary.Decoder) error { var v protocol.MsgGetHeaders; return d.Decode(&v) }},
	{"getcfilters", "", func(r *rand.Rand) []byte { return hx.RandBytes(r, 37) }, func(d *binary.Decoder) error { var v protocol.MsgGetCFilters; return d.Decode(&v) }},
	{"cfilter", "", func(r *rand.Rand) []byte {
		var el [][]byte
		for n := count(r, 300); n > 0; n-- {
			el = append(el, hx.P2WPKH(r))
		}
		h := hx.RandHash(r)
		return hx.CFilter{Block: h, Filter: hx.FilterOf(h, el)}.Payload()
	}, func(d *binary.Decoder) error {
		var v protocol.MsgCFilter
		err := d.Decode(&v)
		if err == nil {
			_, err = v.Filter.NBytes()
		}
		return err
	}},
	{"headers", "headers", func(r *rand.Rand) []byte {
		var hs []*hx.Header
		for n := count(r, 60); n > 0; n-- {
			hs = append(hs, hx.RandHeader(r, uint32(n)))
		}
		return hx.HeadersPayload(hs)
	}, func(d *binary.Decoder) error { var v protocol.MsgHeaders; return d.Decode(&v) }},
	{"tx", "tx", func(r *rand.Rand) []byte {
		return hx.RandTx(r, [][]byte{hx.P2WPKH(r), hx.P2WPKH(r)}, true).Bytes()
	}, func(d *binary.Decoder) error {
		var v protocol.MsgTx
		err := d.Decode(&v)
		if err == nil {
			v.HashStr()
		}
		return err
	}},
	{"block", "block", func(r *rand.Rand) []byte {
		c := hx.NewChain(r, "regtest", 0)
		var txs []*hx.Tx
		for n := r.Intn(6); n > 0; n-- {
			txs = append(txs, hx.RandTx(r, [][]byte{hx.P2WPKH(r)}, true))
		}
		return c.Add(txs).Raw()
	}, func(d *binary.Decoder) error { var v protocol.MsgBlock; return d.Decode(&v) }},
}

func TestC02(t *testing.T) {
	hx.Main(t, "C02", "a case makes a valid message, mutates it 60 times (flips, cuts, insertions, lengths and counts nobody has) and decodes each in a random segmentation; non-trivial if a mutant differs from a valid message; distinct by decoder and size class", func(r *hx.Run) {
		r.Workers(1) // the allocation counter is the process's
		r.Require("mutants decoded", "mutants refused", "mutants accepted")
		r.CaseTime(60e9)
		n := r.N(250, 6000)
		var maxRatio float64
		for _, d := range decoders {
			d := d
			r.Cases(d.name, n, func(c *hx.Case) {
				b := d.gen(c.Rand)
				c.Sig("%s %d", d.name, len(b)/64)
				for i := 0; i < 60; i++ {
					m := b
					if i > 0 {
						m = mutate(c.Rand, b)
					}
					if i%10 == 9 {
						m = hx.RandBytes(c.Rand, c.Rand.Intn(200))
					}
					if d.walk != "" && hx.Outsized(d.walk, m) {
						c.Count("left to the known finding", 1)
						continue
					}
					c.Count("mutants decoded", 1)
					c.Eval(1)
					if i > 0 {
						h := hx.Sum2(m)
						c.Distinct("%s%s", d.name, h[:8])
					}
					rd := newReader(c, m)
					var rr io.Reader = rd
					var a, z runtime.MemStats
					runtime.ReadMemStats(&a)
					err := guard(c, d.name, m, func() error { return d.dec(binary.NewDecoder(rr)) })
					runtime.ReadMemStats(&z)
					alloc := z.TotalAlloc - a.TotalAlloc
					if ratio := float64(alloc) / float64(len(m)+512); ratio > maxRatio {
						maxRatio = ratio
					}
					if alloc > uint64(len(m))*200+1<<18 {
						c.Violate("allocation of "+d.name, "decoding %d bytes as %s allocates %d: %s", len(m), d.name, alloc, short(m))
					}
					if rd.reads > 20*len(m)+2000 {
						c.Violate("reads of "+d.name, "decoding %d bytes as %s reads %d times: %s", len(m), d.name, rd.reads, short(m))
					}
					if err != nil {
						c.Count("mutants refused", 1)
					} else {
						c.Count("mutants accepted", 1)
					}
				}
			})
		}
		r.Extra("max_allocation_per_byte_plus_512", maxRatio)
		// the known finding: the decoder of go-elements believes announced lengths
		r.Cases("finding", 1, func(c *hx.Case) {
			tx := hx.Cat(hx.U32(2), []byte{0, 1}, make([]byte, 36), []byte{0xfe}, hx.U32(64<<20), make([]byte, 20))
			var a, z runtime.MemStats
			runtime.ReadMemStats(&a)
			var v protocol.MsgTx
			binary.NewDecoder(newReader(c, tx)).Decode(&v)
			runtime.ReadMemStats(&z)
			if z.TotalAlloc-a.TotalAlloc > 32<<20 {
				r.Known("go-elements allocates announced lengths")
			}
		})
	})
}

func short(m []byte) string {
	if len(m) > 400 {
		return hex.EncodeToString(m[:400]) + "..."
	}
	return hex.EncodeToString(m)
}

func guard(c *hx.Case, name string, m []byte, f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			c.Violate("panic decoding "+name, "decoding %s of %d bytes panics: %v: %s", name, len(m), e, short(m))
			err = io.ErrUnexpectedEOF
		}
	}()
	return f()
}
