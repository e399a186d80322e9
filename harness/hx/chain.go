package hx

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

// Blk is a block of a generated chain.
type Blk struct {
	H      *Header
	Hash   Hash
	Txs    []*Tx
	IDs    []Hash
	Filter []byte // serialized with the number of elements, as on the wire
}

func (b *Blk) Raw() []byte {
	l := [][]byte{b.H.Bytes(), VarInt(uint64(len(b.Txs)))}
	for _, t := range b.Txs {
		l = append(l, t.Bytes())
	}
	return Cat(l...)
}

// Header is the header as the code under test holds it.
func (b *Blk) Header() *block.Header {
	h, err := block.DeserializeHeader(bytes.NewBuffer(b.H.Bytes()))
	if err != nil {
		panic(fmt.Sprintf("harness: header: %v", err))
	}
	return h
}

// Block is the block as the code under test holds it.
func (b *Blk) Block() *block.Block {
	bl, err := block.NewFromBuffer(bytes.NewBuffer(b.Raw()))
	if err != nil {
		panic(fmt.Sprintf("harness: block: %v", err))
	}
	return bl
}

// CH is the hash in the type of the code under test.
func CH(h Hash) *chainhash.Hash { c := chainhash.Hash(h); return &c }

// GenesisBlk has the header of a network's genesis block.
func GenesisBlk(network string) *Blk {
	var h block.Header
	switch network {
	case "liquid":
		h = protocol.LiquidGenesisHeader
	case "testnet":
		h = protocol.LiquidTestnetGenesisHeader
	default:
		h = protocol.RegtestGenesisHeader
	}
	g := &Blk{H: &Header{Version: h.Version, Time: h.Timestamp, Challenge: h.ExtData.Proof.Challenge}}
	copy(g.H.Merkle[:], h.MerkleRoot)
	g.Hash = HashFromStr(Genesis[network])
	return g
}

// Chain is a generated chain; Blks[0] is the genesis block.
type Chain struct {
	Net  string
	Blks []*Blk
	r    *rand.Rand
	Dyna bool
}

// NewChain returns a chain with n blocks above the genesis block.
func NewChain(r *rand.Rand, net string, n int) *Chain {
	c := &Chain{Net: net, Blks: []*Blk{GenesisBlk(net)}, r: r, Dyna: r.Intn(2) == 0}
	for i := 0; i < n; i++ {
		c.Add(nil)
	}
	return c
}

func (c *Chain) Tip() *Blk      { return c.Blks[len(c.Blks)-1] }
func (c *Chain) Height() uint32 { return uint32(len(c.Blks) - 1) }

// Add appends a block with the transactions (a coinbase comes first).
func (c *Chain) Add(txs []*Tx) *Blk {
	b := c.Next(txs)
	c.Blks = append(c.Blks, b)
	return b
}

// Next makes the block that would follow.
func (c *Chain) Next(txs []*Tx) *Blk {
	r := c.r
	prev := c.Tip()
	height := c.Height() + 1
	cb := &Tx{Version: 2, Ins: []TxIn{{Index: 0xffffffff, Seq: 0xffffffff, Script: Cat([]byte{3}, U32(height)[:3], RandBytes(r, 4))}},
		Outs: []TxOut{{Asset: append([]byte{1}, bytes.Repeat([]byte{0x5a}, 32)...), Value: append([]byte{1}, make([]byte, 8)...), Nonce: []byte{0}, Script: []byte{0x6a}}}}
	b := &Blk{Txs: append([]*Tx{cb}, txs...)}
	for _, t := range b.Txs {
		b.IDs = append(b.IDs, t.ID())
	}
	h := &Header{Version: 0x20000000, Prev: prev.Hash, Merkle: MerkleRoot(b.IDs), Time: prev.H.Time + 60, Height: height}
	if c.Dyna {
		h.Dyna = true
		if r.Intn(3) > 0 {
			h.Current = &Params{Script: RandBytes(r, 34), Limit: 200, ElidedRoot: RandHash(r)}
		} else {
			h.Current = &Params{Full: true, Script: RandBytes(r, 34), Limit: 200, FedpegProgram: RandBytes(r, 34), FedpegScript: RandBytes(r, 100), ExtensionSpace: [][]byte{RandBytes(r, 66)}}
		}
		h.Witness = [][]byte{RandBytes(r, 71), RandBytes(r, 37)}
	} else {
		h.Challenge = []byte{0x51}
		h.Solution = RandBytes(r, r.Intn(3))
	}
	b.H = h
	b.Hash = h.Hash()
	var elems [][]byte
	for _, t := range b.Txs {
		for _, o := range t.Outs {
			if len(o.Script) > 0 && o.Script[0] != 0x6a {
				elems = append(elems, o.Script)
			}
		}
	}
	b.Filter = FilterOf(b.Hash, elems)
	return b
}

// FilterOf is the basic filter of a block with these scripts.
func FilterOf(h Hash, elems [][]byte) []byte {
	if len(elems) == 0 {
		return []byte{0}
	}
	key := builder.DeriveKey(CH(h))
	f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, key, elems)
	if err != nil {
		panic(err)
	}
	b, err := f.NBytes()
	if err != nil {
		panic(err)
	}
	return b
}

// ByHash finds a block.
func (c *Chain) ByHash(h Hash) *Blk {
	for _, b := range c.Blks {
		if b.Hash == h {
			return b
		}
	}
	return nil
}

// After answers a locator: the headers that follow the best block known.
func (c *Chain) After(loc []Hash, stop Hash, max int) []*Header {
	idx := map[Hash]int{}
	for i, b := range c.Blks {
		idx[b.Hash] = i
	}
	from := 0
	for _, h := range loc {
		if i, ok := idx[h]; ok {
			from = i
			break
		}
	}
	var l []*Header
	for i := from + 1; i < len(c.Blks) && len(l) < max; i++ {
		l = append(l, c.Blks[i].H)
		if c.Blks[i].Hash == stop {
			break
		}
	}
	return l
}
