// Package prover is the prover of the ideal proof system of package verifier.
package prover

import (
	"errors"
	"math/big"

	"github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
)

// Fail, when set, may make the prover fail or return something else.
var Fail func(p *types.Proof) error

func GenerateProof(pk *types.Pk, w types.Witness) (*types.Proof, []*big.Int, error) {
	if len(w) < pk.NPublic+1 {
		return nil, nil, errors.New("witness too short")
	}
	pub := w[1 : pk.NPublic+1]
	p := verifier.Ideal(pk.VkAlpha1, pub)
	if Fail != nil {
		if err := Fail(p); err != nil {
			return nil, nil, err
		}
	}
	return p, pub, nil
}
