package scanx

import (
	"crypto/sha256"
	"math/rand"

	"github.com/btcsuite/btcd/btcutil/base58"
	"github.com/btcsuite/btcd/btcutil/bech32"
	"github.com/vulpemventures/neutrino-elements/verifharness/hx"
)

// nets are the address prefixes: pkh, sh, segwit.
var nets = []struct {
	pkh, sh, conf byte
	hrp           string
}{{57, 39, 12, "ex"}, {235, 75, 4, "ert"}, {36, 19, 23, "tex"}}

func b58(b []byte) string {
	s := sha256.Sum256(b)
	s = sha256.Sum256(s[:])
	return base58.Encode(append(append([]byte(nil), b...), s[:4]...))
}

// Address is the address of a script, on any network.
func Address(script []byte, r *rand.Rand) string {
	n := nets[r.Intn(len(nets))]
	conf := func(b []byte) []byte {
		if r.Intn(2) == 0 {
			return b
		}
		k := make([]byte, 33)
		hx.Fill(r, k)
		k[0] = byte(2 + r.Intn(2))
		return append(append([]byte{n.conf, b[0]}, k...), b[1:]...)
	}
	switch {
	case len(script) == 23 && script[0] == 0xa9:
		return b58(conf(append([]byte{n.sh}, script[2:22]...)))
	case len(script) == 25 && script[0] == 0x76:
		return b58(conf(append([]byte{n.pkh}, script[3:23]...)))
	}
	five, err := bech32.ConvertBits(script[2:], 8, 5, true)
	if err != nil {
		panic(err)
	}
	s, err := bech32.Encode(n.hrp, append([]byte{script[0]}, five...))
	if err != nil {
		panic(err)
	}
	return s
}
