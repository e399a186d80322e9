package hx

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"sync"
)

// An independent codec of the Elements wire format.

type Magic = [4]byte

var (
	Liquid  = Magic{0xfa, 0xbf, 0xb5, 0xda}
	Regtest = Magic{0x12, 0x34, 0x56, 0x78}
	Testnet = Magic{0x41, 0x0e, 0xdd, 0x62}
	Magics  = map[string]Magic{"liquid": Liquid, "regtest": Regtest, "testnet": Testnet}
	// hashes of the genesis blocks as the explorers print them
	Genesis = map[string]string{
		"liquid":  "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003",
		"regtest": "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21",
		"testnet": "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1",
	}
)

type Hash [32]byte

func (h Hash) String() string { // as the explorers print it
	for i := 0; i < 16; i++ {
		h[i], h[31-i] = h[31-i], h[i]
	}
	return hex.EncodeToString(h[:])
}

func HashFromStr(s string) (h Hash) {
	b, _ := hex.DecodeString(s)
	for i := range b {
		h[31-i] = b[i]
	}
	return
}

func Sum2(b []byte) Hash {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}

func Checksum(b []byte) (c [4]byte) {
	h := Sum2(b)
	copy(c[:], h[:4])
	return
}

func U16(v uint16) []byte { return binary.LittleEndian.AppendUint16(nil, v) }
func U32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func U64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }
func Cat(bs ...[]byte) []byte {
	return bytes.Join(bs, nil)
}

// VarInt encodes n in its shortest form.
func VarInt(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return append([]byte{0xfd}, U16(uint16(n))...)
	case n <= 0xffffffff:
		return append([]byte{0xfe}, U32(uint32(n))...)
	}
	return append([]byte{0xff}, U64(n)...)
}

func VarBytes(b []byte) []byte { return append(VarInt(uint64(len(b))), b...) }

func Cmd(s string) (c [12]byte) { copy(c[:], s); return }

// Frame is a message with its right header.
func Frame(m Magic, cmd string, payload []byte) []byte {
	return RawFrame(m, Cmd(cmd), uint32(len(payload)), Checksum(payload), payload)
}

func RawFrame(m Magic, cmd [12]byte, length uint32, sum [4]byte, payload []byte) []byte {
	return Cat(m[:], cmd[:], U32(length), sum[:], payload)
}

// Msg is a parsed message.
type Msg struct {
	Magic   Magic
	Cmd     string
	RawCmd  [12]byte
	Sum     [4]byte
	Payload []byte
}

// Take takes one message off the buffer; ok is false if it is incomplete.
func Take(b []byte) (m Msg, rest []byte, ok bool) {
	if len(b) < 24 {
		return m, b, false
	}
	n := binary.LittleEndian.Uint32(b[16:20])
	if uint64(len(b)) < 24+uint64(n) {
		return m, b, false
	}
	copy(m.Magic[:], b[:4])
	copy(m.RawCmd[:], b[4:16])
	m.Cmd = string(bytes.TrimRight(m.RawCmd[:], "\x00"))
	copy(m.Sum[:], b[20:24])
	m.Payload = append([]byte(nil), b[24:24+n]...)
	return m, b[24+n:], true
}

// Check says what is wrong with the header of the message, if anything.
func (m Msg) Check(magic Magic) error {
	if m.Magic != magic {
		return fmt.Errorf("magic %x instead of %x", m.Magic, magic)
	}
	if m.Sum != Checksum(m.Payload) {
		return fmt.Errorf("checksum %x of %q is not that of its payload", m.Sum, m.Cmd)
	}
	i := bytes.IndexByte(m.RawCmd[:], 0)
	if i >= 0 && len(bytes.Trim(m.RawCmd[i:], "\x00")) > 0 {
		return fmt.Errorf("command %q is not padded with zeros", m.RawCmd)
	}
	return nil
}

// Cur reads fields and remembers running out of bytes.
type Cur struct {
	B   []byte
	Bad bool
}

func (c *Cur) N(n uint64) []byte {
	if c.Bad || n > uint64(len(c.B)) {
		c.Bad = true
		if n > 64 {
			n = 64
		}
		return make([]byte, n)
	}
	b := c.B[:n]
	c.B = c.B[n:]
	return b
}
func (c *Cur) U8() byte    { return c.N(1)[0] }
func (c *Cur) U32() uint32 { return binary.LittleEndian.Uint32(c.N(4)) }
func (c *Cur) U64() uint64 { return binary.LittleEndian.Uint64(c.N(8)) }
func (c *Cur) Hash() (h Hash) {
	copy(h[:], c.N(32))
	return
}
func (c *Cur) VarInt() uint64 {
	switch b := c.U8(); b {
	case 0xfd:
		return uint64(binary.LittleEndian.Uint16(c.N(2)))
	case 0xfe:
		return uint64(c.U32())
	case 0xff:
		return c.U64()
	default:
		return uint64(b)
	}
}
func (c *Cur) VarBytes() []byte { return c.N(c.VarInt()) }

// Done says whether everything was read and nothing was missing.
func (c *Cur) Done() bool { return !c.Bad && len(c.B) == 0 }

// Inv is an inventory vector.
type Inv struct {
	Type uint32
	Hash Hash
}

func InvPayload(l []Inv) []byte {
	b := VarInt(uint64(len(l)))
	for _, v := range l {
		b = append(append(b, U32(v.Type)...), v.Hash[:]...)
	}
	return b
}

func ParseInv(p []byte) ([]Inv, error) {
	c := &Cur{B: p}
	n := c.VarInt()
	var l []Inv
	for i := uint64(0); i < n && !c.Bad; i++ {
		l = append(l, Inv{c.U32(), c.Hash()})
	}
	if !c.Done() {
		return nil, errors.New("not an inventory")
	}
	return l, nil
}

// Version is a version message.
type Version struct {
	Version      int32
	Services     uint64
	Time         int64
	RecvServices uint64
	RecvIP       [16]byte
	RecvPort     uint16
	FromServices uint64
	FromIP       [16]byte
	FromPort     uint16
	Nonce        uint64
	UserAgent    string
	StartHeight  int32
	Relay        byte
}

func (v Version) Payload() []byte {
	return Cat(U32(uint32(v.Version)), U64(v.Services), U64(uint64(v.Time)), U64(v.RecvServices), v.RecvIP[:], binary.BigEndian.AppendUint16(nil, v.RecvPort),
		U64(v.FromServices), v.FromIP[:], binary.BigEndian.AppendUint16(nil, v.FromPort), U64(v.Nonce), VarBytes([]byte(v.UserAgent)), U32(uint32(v.StartHeight)), []byte{v.Relay})
}

func ParseVersion(p []byte) (v Version, err error) {
	c := &Cur{B: p}
	v.Version = int32(c.U32())
	v.Services = c.U64()
	v.Time = int64(c.U64())
	v.RecvServices = c.U64()
	copy(v.RecvIP[:], c.N(16))
	v.RecvPort = binary.BigEndian.Uint16(c.N(2))
	v.FromServices = c.U64()
	copy(v.FromIP[:], c.N(16))
	v.FromPort = binary.BigEndian.Uint16(c.N(2))
	v.Nonce = c.U64()
	v.UserAgent = string(c.VarBytes())
	v.StartHeight = int32(c.U32())
	v.Relay = c.U8()
	if !c.Done() {
		err = errors.New("not a version message")
	}
	return
}

func V4(a, b, c, d byte) (ip [16]byte) {
	ip[10], ip[11] = 0xff, 0xff
	ip[12], ip[13], ip[14], ip[15] = a, b, c, d
	return
}

// GetHeaders is a getheaders message.
type GetHeaders struct {
	Version uint32
	Locator []Hash
	Stop    Hash
}

func (g GetHeaders) Payload() []byte {
	b := append(U32(g.Version), VarInt(uint64(len(g.Locator)))...)
	for _, h := range g.Locator {
		b = append(b, h[:]...)
	}
	return append(b, g.Stop[:]...)
}

func ParseGetHeaders(p []byte) (g GetHeaders, err error) {
	c := &Cur{B: p}
	g.Version = c.U32()
	n := c.VarInt()
	for i := uint64(0); i < n && !c.Bad; i++ {
		g.Locator = append(g.Locator, c.Hash())
	}
	g.Stop = c.Hash()
	if !c.Done() {
		err = errors.New("not a getheaders message")
	}
	return
}

// GetCFilters is a getcfilters message.
type GetCFilters struct {
	Type  byte
	Start uint32
	Stop  Hash
}

func (g GetCFilters) Payload() []byte { return Cat([]byte{g.Type}, U32(g.Start), g.Stop[:]) }

func ParseGetCFilters(p []byte) (g GetCFilters, err error) {
	c := &Cur{B: p}
	g.Type, g.Start, g.Stop = c.U8(), c.U32(), c.Hash()
	if !c.Done() {
		err = errors.New("not a getcfilters message")
	}
	return
}

// CFilter is a cfilter message.
type CFilter struct {
	Type   byte
	Block  Hash
	Filter []byte
}

func (f CFilter) Payload() []byte { return Cat([]byte{f.Type}, f.Block[:], VarBytes(f.Filter)) }

func ParseCFilter(p []byte) (f CFilter, err error) {
	c := &Cur{B: p}
	f.Type, f.Block = c.U8(), c.Hash()
	f.Filter = append([]byte(nil), c.VarBytes()...)
	if !c.Done() {
		err = errors.New("not a cfilter message")
	}
	return
}

// Params are dynamic federation parameters: nil, compact or full.
type Params struct {
	Full           bool
	Script         []byte
	Limit          uint32
	ElidedRoot     Hash
	FedpegProgram  []byte
	FedpegScript   []byte
	ExtensionSpace [][]byte
}

func (p *Params) Bytes() []byte {
	if p == nil {
		return []byte{0}
	}
	if !p.Full {
		return Cat([]byte{1}, VarBytes(p.Script), U32(p.Limit), p.ElidedRoot[:])
	}
	b := Cat([]byte{2}, VarBytes(p.Script), U32(p.Limit), VarBytes(p.FedpegProgram), VarBytes(p.FedpegScript), VarInt(uint64(len(p.ExtensionSpace))))
	for _, e := range p.ExtensionSpace {
		b = append(b, VarBytes(e)...)
	}
	return b
}

// Header is a block header.
type Header struct {
	Version   uint32
	Prev      Hash
	Merkle    Hash
	Time      uint32
	Height    uint32
	Dyna      bool
	Challenge []byte
	Solution  []byte
	Current   *Params
	Proposed  *Params
	Witness   [][]byte
}

func (h *Header) bytes(forHash bool) []byte {
	v := h.Version
	if h.Dyna {
		v |= 1 << 31
	}
	b := Cat(U32(v), h.Prev[:], h.Merkle[:], U32(h.Time), U32(h.Height))
	if !h.Dyna {
		b = append(b, VarBytes(h.Challenge)...)
		if !forHash {
			b = append(b, VarBytes(h.Solution)...)
		}
		return b
	}
	b = Cat(b, h.Current.Bytes(), h.Proposed.Bytes())
	if !forHash {
		b = append(b, VarInt(uint64(len(h.Witness)))...)
		for _, w := range h.Witness {
			b = append(b, VarBytes(w)...)
		}
	}
	return b
}

func (h *Header) Bytes() []byte { return h.bytes(false) }
func (h *Header) Hash() Hash    { return Sum2(h.bytes(true)) }

// HeadersPayload is the payload of a headers message.
func HeadersPayload(hs []*Header) []byte {
	b := VarInt(uint64(len(hs)))
	for _, h := range hs {
		b = append(append(b, h.Bytes()...), 0)
	}
	return b
}

// TxIn, TxOut and Tx are an Elements transaction.
type TxIn struct {
	Prev     Hash
	Index    uint32
	Script   []byte
	Seq      uint32
	Pegin    bool
	Issuance *Issuance

	IssuanceProof, InflationProof []byte
	Witness, PeginWitness         [][]byte
}

type Issuance struct {
	Nonce, Entropy Hash
	Amount, Token  []byte
}

type TxOut struct {
	Asset, Value, Nonce         []byte
	Script                      []byte
	SurjectionProof, RangeProof []byte
}

type Tx struct {
	Version  uint32
	Witness  bool
	Ins      []TxIn
	Outs     []TxOut
	Locktime uint32
}

func vec(l [][]byte) []byte {
	b := VarInt(uint64(len(l)))
	for _, e := range l {
		b = append(b, VarBytes(e)...)
	}
	return b
}

func (t *Tx) bytes(wit bool) []byte {
	b := U32(t.Version)
	if wit {
		b = append(b, 1)
	} else {
		b = append(b, 0)
	}
	b = append(b, VarInt(uint64(len(t.Ins)))...)
	for _, in := range t.Ins {
		ix := in.Index
		if in.Issuance != nil {
			ix |= 1 << 31
		}
		if in.Pegin {
			ix |= 1 << 30
		}
		b = Cat(b, in.Prev[:], U32(ix), VarBytes(in.Script), U32(in.Seq))
		if is := in.Issuance; is != nil {
			b = Cat(b, is.Nonce[:], is.Entropy[:], is.Amount, is.Token)
		}
	}
	b = append(b, VarInt(uint64(len(t.Outs)))...)
	for _, o := range t.Outs {
		b = Cat(b, o.Asset, o.Value, o.Nonce, VarBytes(o.Script))
	}
	b = append(b, U32(t.Locktime)...)
	if wit {
		for _, in := range t.Ins {
			b = Cat(b, VarBytes(in.IssuanceProof), VarBytes(in.InflationProof), vec(in.Witness), vec(in.PeginWitness))
		}
		for _, o := range t.Outs {
			b = Cat(b, VarBytes(o.SurjectionProof), VarBytes(o.RangeProof))
		}
	}
	return b
}

func (t *Tx) Bytes() []byte { return t.bytes(t.Witness) }
func (t *Tx) Plain() []byte { return t.bytes(false) }
func (t *Tx) ID() Hash      { return Sum2(t.bytes(false)) }

func MerkleRoot(ids []Hash) Hash {
	if len(ids) == 0 {
		return Hash{}
	}
	for len(ids) > 1 {
		if len(ids)%2 == 1 {
			ids = append(ids[:len(ids):len(ids)], ids[len(ids)-1])
		}
		var next []Hash
		for i := 0; i < len(ids); i += 2 {
			next = append(next, Sum2(append(append([]byte(nil), ids[i][:]...), ids[i+1][:]...)))
		}
		ids = next
	}
	return ids[0]
}

// RandHash, RandBytes are from the given source.
func RandHash(r *rand.Rand) (h Hash) { Fill(r, h[:]); return }

// Fill is Read for use by several goroutines.
func Fill(r *rand.Rand, b []byte) {
	for i := 0; i < len(b); {
		for x, k := r.Uint64(), 0; k < 8 && i < len(b); k++ {
			b[i] = byte(x >> (8 * k))
			i++
		}
	}
}

func RandBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	Fill(r, b)
	return b
}

// RandValue is an explicit or a blinded value.
func RandValue(r *rand.Rand) []byte {
	if r.Intn(2) == 0 {
		return append([]byte{1}, RandBytes(r, 8)...)
	}
	return append([]byte{byte(8 + r.Intn(2))}, RandBytes(r, 32)...)
}

// RandTx is a transaction that pays to the given scripts, with everything an
// Elements transaction may have.
func RandTx(r *rand.Rand, scripts [][]byte, rich bool) *Tx {
	t := &Tx{Version: uint32(1 + r.Intn(2)), Locktime: uint32(r.Intn(2)) * r.Uint32()}
	for n := 1 + r.Intn(3); n > 0; n-- {
		in := TxIn{Prev: RandHash(r), Index: uint32(r.Intn(5)), Seq: 0xffffffff - uint32(r.Intn(3))}
		if rich {
			in.Script = RandBytes(r, r.Intn(3)*30)
			if r.Intn(4) == 0 {
				in.Issuance = &Issuance{Nonce: RandHash(r), Entropy: RandHash(r), Amount: RandValue(r), Token: []byte{0}}
				if r.Intn(2) == 0 {
					in.Issuance.Token = RandValue(r)
				}
			}
			if r.Intn(6) == 0 {
				in.Pegin = true
			}
		}
		t.Ins = append(t.Ins, in)
	}
	for _, s := range scripts {
		o := TxOut{Asset: append([]byte{1}, RandBytes(r, 32)...), Value: append([]byte{1}, RandBytes(r, 8)...), Nonce: []byte{0}, Script: s}
		if rich && r.Intn(2) == 0 {
			o.Asset[0] = byte(10 + r.Intn(2))
			o.Value = append([]byte{byte(8 + r.Intn(2))}, RandBytes(r, 32)...)
			o.Nonce = append([]byte{byte(2 + r.Intn(2))}, RandBytes(r, 32)...)
			if t.Witness {
				o.SurjectionProof = RandBytes(r, 10+r.Intn(100))
				o.RangeProof = RandBytes(r, 10+r.Intn(600))
			}
		}
		t.Outs = append(t.Outs, o)
	}
	if rich && r.Intn(2) == 0 {
		t.Witness = true
		for i := range t.Ins {
			for n := 1 + r.Intn(3); n > 0; n-- {
				t.Ins[i].Witness = append(t.Ins[i].Witness, RandBytes(r, 1+r.Intn(80)))
			}
			if t.Ins[i].Pegin {
				t.Ins[i].PeginWitness = [][]byte{RandBytes(r, 8), RandBytes(r, 300)}
			}
		}
		for i := range t.Outs {
			if t.Outs[i].Value[0] != 1 {
				t.Outs[i].SurjectionProof = RandBytes(r, 10+r.Intn(100))
				t.Outs[i].RangeProof = RandBytes(r, 10+r.Intn(600))
			}
		}
	}
	return t
}

// P2WPKH is a script nobody else uses.
func P2WPKH(r *rand.Rand) []byte { return append([]byte{0, 20}, RandBytes(r, 20)...) }

// RandHeader is any header of the wire format.
func RandHeader(r *rand.Rand, height uint32) *Header {
	h := &Header{Version: r.Uint32() &^ (1 << 31), Prev: RandHash(r), Merkle: RandHash(r), Time: r.Uint32(), Height: height}
	if r.Intn(2) == 0 {
		h.Challenge = RandBytes(r, pickLen(r))
		h.Solution = RandBytes(r, pickLen(r))
		return h
	}
	h.Dyna = true
	h.Current, h.Proposed = randParams(r), randParams(r)
	for n := r.Intn(4); n > 0; n-- {
		h.Witness = append(h.Witness, RandBytes(r, pickLen(r)))
	}
	return h
}

func pickLen(r *rand.Rand) int {
	return []int{0, 1, 20, 71, 107, 252, 253, 254, 300}[r.Intn(9)]
}

func randParams(r *rand.Rand) *Params {
	switch r.Intn(3) {
	case 0:
		return nil
	case 1:
		return &Params{Script: RandBytes(r, pickLen(r)), Limit: r.Uint32(), ElidedRoot: RandHash(r)}
	}
	p := &Params{Full: true, Script: RandBytes(r, pickLen(r)), Limit: r.Uint32(), FedpegProgram: RandBytes(r, pickLen(r)), FedpegScript: RandBytes(r, pickLen(r))}
	for n := r.Intn(4); n > 0; n-- {
		p.ExtensionSpace = append(p.ExtensionSpace, RandBytes(r, pickLen(r)))
	}
	return p
}

// Outsized says whether a header, transaction or block announces, where the
// go-elements decoder believes it, a length or count far beyond the bytes that
// are there (kind "headers": the payload of a headers message).
func Outsized(kind string, b []byte) bool {
	w := &walk{Cur: Cur{B: b}}
	switch kind {
	case "header":
		w.header()
	case "headers":
		n := w.VarInt()
		for i := uint64(0); i < n && !w.stop(); i++ {
			w.header()
			w.VarInt()
		}
	case "tx":
		w.tx()
	case "block":
		w.header()
		n := w.VarInt()
		for i := uint64(0); i < n && !w.stop(); i++ {
			w.tx()
		}
	}
	return w.out
}

type walk struct {
	Cur
	out bool
}

func (w *walk) stop() bool { return w.Bad || w.out }

func (w *walk) bytes() {
	n := w.VarInt()
	if w.stop() {
		return
	}
	if n > uint64(len(w.B))+1<<16 {
		w.out = true
		return
	}
	if n > 0 {
		w.fixed(int(n))
	}
}

func (w *walk) vector() {
	n := w.VarInt()
	if w.stop() {
		return
	}
	if n > uint64(len(w.B))+1<<12 {
		w.out = true
		return
	}
	for i := uint64(0); i < n && !w.stop(); i++ {
		w.bytes()
	}
}

func (w *walk) params() {
	switch w.U8() {
	case 1:
		w.bytes()
		w.U32()
		w.fixed(32)
	case 2:
		w.bytes()
		w.U32()
		w.bytes()
		w.bytes()
		w.vector()
	case 0:
	default:
		w.Bad = true
	}
}

// fixed reads like go-elements: fewer bytes are enough.
func (w *walk) fixed(n int) {
	if w.stop() {
		return
	}
	if len(w.B) == 0 {
		w.Bad = true
		return
	}
	if n > len(w.B) {
		n = len(w.B)
	}
	w.B = w.B[n:]
}

func (w *walk) header() {
	v := w.U32()
	w.fixed(32)
	w.fixed(32)
	w.U32()
	w.U32()
	if v&(1<<31) == 0 {
		w.bytes()
		w.bytes()
		return
	}
	w.params()
	if !w.stop() {
		w.params()
	}
	if !w.stop() {
		w.vector()
	}
}

func (w *walk) value() {
	switch w.U8() {
	case 1:
		w.fixed(8)
	case 8, 9:
		w.fixed(32)
	}
}

func (w *walk) tx() {
	w.U32()
	flag := w.U8()
	n := w.VarInt()
	var ins, outs uint64
	for ; ins < n && !w.stop(); ins++ {
		w.fixed(32)
		ix := w.U32()
		w.bytes()
		w.U32()
		if ix != 0xffffffff && ix&(1<<31) != 0 {
			w.fixed(32)
			w.fixed(32)
			w.value()
			w.value()
		}
	}
	n = w.VarInt()
	for ; outs < n && !w.stop(); outs++ {
		switch w.U8() {
		case 1, 10, 11:
			w.fixed(32)
		default:
			w.Bad = true
		}
		w.value()
		if p := w.U8(); p >= 1 && p <= 3 {
			w.fixed(32)
		}
		w.bytes()
	}
	w.U32()
	if flag == 1 {
		for ; ins > 0 && !w.stop(); ins-- {
			w.bytes()
			w.bytes()
			w.vector()
			w.vector()
		}
		for ; outs > 0 && !w.stop(); outs-- {
			w.bytes()
			w.bytes()
		}
	}
}

// lockedSource may be used by several goroutines.
type lockedSource struct {
	mu sync.Mutex
	s  rand.Source64
}

func (l *lockedSource) Int63() int64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Int63()
}

func (l *lockedSource) Uint64() uint64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Uint64()
}

func (l *lockedSource) Seed(n int64) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.s.Seed(n)
}

func newRand(seed int64) *rand.Rand {
	return rand.New(&lockedSource{s: rand.NewSource(seed).(rand.Source64)})
}
