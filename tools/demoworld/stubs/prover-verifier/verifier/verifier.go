// Package verifier is the verifier of an ideal proof system: a proof is bound
// to the circuit and the public signals it was made for, and to nothing else.
package verifier

import (
	"bytes"
	"crypto/sha256"
	"math/big"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-circom-prover-verifier/types"
)

// Ideal is the proof for the tag of a circuit and its public signals.
func Ideal(tag *bn256.G1, pub []*big.Int) *types.Proof {
	s := func(n byte) *big.Int {
		h := sha256.New()
		h.Write([]byte{n})
		h.Write(tag.Marshal())
		for _, p := range pub {
			b := p.Bytes()
			h.Write([]byte{byte(len(b))})
			h.Write(b)
		}
		return new(big.Int).SetBytes(h.Sum(nil))
	}
	return &types.Proof{A: new(bn256.G1).ScalarBaseMult(s(1)), B: new(bn256.G2).ScalarBaseMult(s(2)), C: new(bn256.G1).ScalarBaseMult(s(3))}
}

func Verify(vk *types.Vk, proof *types.Proof, inputs []*big.Int) bool {
	if len(inputs)+1 != len(vk.IC) {
		return false
	}
	for _, x := range inputs {
		if x.Cmp(types.R) != -1 {
			return false
		}
	}
	p := Ideal(vk.Alpha, inputs)
	return bytes.Equal(p.A.Marshal(), proof.A.Marshal()) && bytes.Equal(p.B.Marshal(), proof.B.Marshal()) &&
		bytes.Equal(p.C.Marshal(), proof.C.Marshal())
}
