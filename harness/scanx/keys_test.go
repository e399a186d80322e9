package scanx

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
	"golang.org/x/crypto/ripemd160"
)

// secp256k1, by the book.
var (
	fp, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	fn, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	gx, _ = new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	gy, _ = new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
)

// point of the curve; nil x is the one at infinity.
type point struct{ x, y *big.Int }

// jac is a point in jacobian coordinates.
type jac struct{ x, y, z *big.Int }

func mod(a *big.Int) *big.Int { return a.Mod(a, fp) }
func mul(a, b *big.Int) *big.Int {
	return mod(new(big.Int).Mul(a, b))
}
func fsub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }

func (a jac) inf() bool { return a.z.Sign() == 0 }

func (a jac) double() jac {
	if a.inf() || a.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	y2 := mul(a.y, a.y)
	s := mul(big.NewInt(4), mul(a.x, y2))
	m := mul(big.NewInt(3), mul(a.x, a.x))
	x := fsub(fsub(mul(m, m), s), s)
	y := fsub(mul(m, fsub(s, x)), mul(big.NewInt(8), mul(y2, y2)))
	return jac{x, y, mul(big.NewInt(2), mul(a.y, a.z))}
}

func (a jac) add(b jac) jac {
	if a.inf() {
		return b
	}
	if b.inf() {
		return a
	}
	az, bz := mul(a.z, a.z), mul(b.z, b.z)
	u1, u2 := mul(a.x, bz), mul(b.x, az)
	s1, s2 := mul(a.y, mul(bz, b.z)), mul(b.y, mul(az, a.z))
	if u1.Cmp(u2) == 0 {
		if s1.Cmp(s2) != 0 {
			return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
		}
		return a.double()
	}
	h, r := fsub(u2, u1), fsub(s2, s1)
	h2 := mul(h, h)
	h3, v := mul(h2, h), mul(u1, h2)
	x := fsub(fsub(fsub(mul(r, r), h3), v), v)
	return jac{x, fsub(mul(r, fsub(v, x)), mul(s1, h3)), mul(h, mul(a.z, b.z))}
}

func (a jac) affine() point {
	if a.inf() {
		return point{}
	}
	zi := new(big.Int).ModInverse(a.z, fp)
	z2 := mul(zi, zi)
	return point{mul(a.x, z2), mul(a.y, mul(z2, zi))}
}

func (p point) jac() jac { return jac{p.x, p.y, big.NewInt(1)} }

// gen multiplies the generator, with its doublings at hand.
type generator [256]jac

var gen = func() *generator {
	g := new(generator)
	p := point{gx, gy}.jac()
	for i := range g {
		g[i] = p.affine().jac()
		p = p.double()
	}
	return g
}()

func (g *generator) times(k *big.Int) jac {
	r := jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.add(g[i])
		}
	}
	return r
}

func (p point) compressed() []byte {
	b := make([]byte, 33)
	b[0] = byte(2 + p.y.Bit(0))
	p.x.FillBytes(b[1:])
	return b
}

func (p point) uncompressed() []byte {
	b := make([]byte, 65)
	b[0] = 4
	p.x.FillBytes(b[1:33])
	p.y.FillBytes(b[33:])
	return b
}

func hash160(b []byte) []byte {
	s := sha256.Sum256(b)
	h := ripemd160.New()
	h.Write(s[:])
	return h.Sum(nil)
}

func wpkh(pub []byte) []byte { return append([]byte{0, 20}, hash160(pub)...) }

// extKey is a BIP32 key; k is nil if it is a public one.
type extKey struct {
	k      *big.Int
	p      point
	chain  []byte
	depth  byte
	parent []byte
	num    uint32
}

func newMaster(r *rand.Rand) *extKey {
	seed := make([]byte, 16+r.Intn(49))
	hx.Fill(r, seed)
	h := hmac.New(sha512.New, []byte("Bitcoin seed"))
	h.Write(seed)
	i := h.Sum(nil)
	k := new(big.Int).SetBytes(i[:32])
	return &extKey{k: k, p: gen.times(k).affine(), chain: i[32:], parent: make([]byte, 4)}
}

// child derives a key; nil if that can't be done.
func (x *extKey) child(n uint32) *extKey {
	h := hmac.New(sha512.New, x.chain)
	if n >= 1<<31 {
		if x.k == nil {
			return nil
		}
		h.Write([]byte{0})
		h.Write(x.k.FillBytes(make([]byte, 32)))
	} else {
		h.Write(x.p.compressed())
	}
	binary.Write(h, binary.BigEndian, n)
	i := h.Sum(nil)
	t := new(big.Int).SetBytes(i[:32])
	c := &extKey{chain: i[32:], depth: x.depth + 1, parent: hash160(x.p.compressed())[:4], num: n}
	c.p = gen.times(t).add(x.p.jac()).affine()
	if x.k != nil {
		c.k = new(big.Int).Mod(new(big.Int).Add(t, x.k), fn)
	}
	return c
}

func (x *extKey) public() *extKey {
	c := *x
	c.k = nil
	return &c
}

func (x *extKey) String() string {
	b := []byte{0x04, 0x88, 0xb2, 0x1e}
	if x.k != nil {
		b = []byte{0x04, 0x88, 0xad, 0xe4}
	}
	b = append(b, x.depth)
	b = append(b, x.parent...)
	b = binary.BigEndian.AppendUint32(b, x.num)
	b = append(b, x.chain...)
	if x.k != nil {
		b = append(append(b, 0), x.k.FillBytes(make([]byte, 32))...)
	} else {
		b = append(b, x.p.compressed()...)
	}
	return b58(b)
}

// descsum is the checksum of a descriptor (BIP 380).
func descsum(s string) string {
	const in = "0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ "
	const out = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	c := uint64(1)
	poly := func(v uint64) {
		c0 := c >> 35
		c = (c&0x7ffffffff)<<5 ^ v
		for i, g := range []uint64{0xf5dee51989, 0xa9fdca3312, 0x1bab10e32d, 0x3706b1677a, 0x644d626ffd} {
			if c0>>i&1 == 1 {
				c ^= g
			}
		}
	}
	cls, n := uint64(0), 0
	for _, ch := range s {
		p := strings.IndexRune(in, ch)
		if p < 0 {
			return strings.Repeat("q", 8)
		}
		poly(uint64(p & 31))
		cls = cls*3 + uint64(p>>5)
		if n++; n == 3 {
			poly(cls)
			cls, n = 0, 0
		}
	}
	if n > 0 {
		poly(cls)
	}
	for i := 0; i < 8; i++ {
		poly(0)
	}
	c ^= 1
	b := make([]byte, 8)
	for i := range b {
		b[i] = out[c>>(5*(7-i))&31]
	}
	return string(b)
}

// desc is a descriptor and the scripts it stands for.
type desc struct {
	text    string // without checksum
	kind    string
	scripts [][]byte
	beyond  [][]byte // next ones of a range, that are not watched
	prefix  string
	origin  string
	key     string
	path    string
}

func randDesc(r *rand.Rand) *desc { return newDesc(r, true) }

// newDesc makes a descriptor, and its scripts if asked for.
func newDesc(r *rand.Rand, derive bool) *desc {
	d := &desc{prefix: []string{"elwpkh", "elwpkh", "wpkh"}[r.Intn(3)]}
	k := newMaster(r)
	for n := r.Intn(3); n > 0; n-- {
		k = k.child(r.Uint32())
	}
	hard := func(n uint32) string {
		if n >= 1<<31 {
			return fmt.Sprintf("/%d%s", n-1<<31, []string{"'", "h"}[r.Intn(2)])
		}
		return fmt.Sprintf("/%d", n)
	}
	idx := func() uint32 {
		return []uint32{0, 1, uint32(r.Intn(100)), uint32(r.Int31()), 1<<31 - 1}[r.Intn(5)]
	}
	switch r.Intn(6) {
	case 0:
		d.kind, d.key = "public key", hex.EncodeToString(k.p.compressed())
		if r.Intn(4) == 0 {
			d.key = strings.ToUpper(d.key)
		}
		d.scripts = [][]byte{wpkh(k.p.compressed())}
	case 1:
		d.kind = "private key"
		d.key = b58(append(append([]byte{[]byte{0x80, 0xef}[r.Intn(2)]}, k.k.FillBytes(make([]byte, 32))...), 1))
		d.scripts = [][]byte{wpkh(k.p.compressed())}
	case 2, 3: // a fixed path
		steps := r.Intn(4)
		d.kind = "extended public key"
		if r.Intn(2) == 0 {
			d.kind = "extended private key"
		} else {
			k = k.public()
		}
		d.key = k.String()
		for i := 0; i < steps; i++ {
			n := idx()
			if k.k != nil && r.Intn(2) == 0 {
				n += 1 << 31
				d.kind = "extended private key, hardened path"
			}
			d.path += hard(n)
			k = k.child(n)
		}
		d.scripts = [][]byte{wpkh(k.p.compressed())}
	default: // a range
		d.kind = "range of public keys"
		if r.Intn(2) == 0 {
			d.kind = "range of private keys"
		} else {
			k = k.public()
		}
		d.key = k.String()
		for i := 1 + r.Intn(3); i > 0; i-- {
			n := idx()
			if k.k != nil && r.Intn(2) == 0 {
				n += 1 << 31
				d.kind = "range of private keys, hardened path"
			}
			d.path += hard(n)
			k = k.child(n)
		}
		d.path += "/*"
		for i := uint32(0); i < 104 && derive; i++ {
			s := wpkh(k.public().child(i).p.compressed())
			if i < 100 {
				d.scripts = append(d.scripts, s)
			} else {
				d.beyond = append(d.beyond, s)
			}
		}
	}
	if r.Intn(3) == 0 {
		b := make([]byte, 4)
		hx.Fill(r, b)
		d.origin = "[" + hex.EncodeToString(b)
		for n := r.Intn(4); n > 0; n-- {
			d.origin += hard(r.Uint32())
		}
		d.origin += "]"
	}
	d.text = d.prefix + "(" + d.origin + d.key + d.path + ")"
	return d
}

// onCurve tells whether there is a point with this x.
func onCurve(x []byte) bool {
	v := new(big.Int).SetBytes(x)
	if v.Cmp(fp) >= 0 {
		return false
	}
	y2 := mod(new(big.Int).Add(mul(v, mul(v, v)), big.NewInt(7)))
	return big.Jacobi(y2, fp) >= 0
}
