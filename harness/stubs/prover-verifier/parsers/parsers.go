// Package parsers reads the keys of the ideal proof system.
package parsers

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"

	"crypto/sha256"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-circom-prover-verifier/types"
)

type key struct {
	Kind    string `json:"kind"` // "pk" or "vk"
	Circuit string `json:"circuit"`
	NPublic int    `json:"nPublic"`
}

func parse(b []byte, kind string) (*key, *bn256.G1, error) {
	var k key
	if err := json.Unmarshal(b, &k); err != nil {
		return nil, nil, err
	}
	if k.Kind != kind || k.Circuit == "" {
		return nil, nil, fmt.Errorf("not a %s", kind)
	}
	h := sha256.Sum256([]byte(k.Circuit))
	return &k, new(bn256.G1).ScalarBaseMult(new(big.Int).SetBytes(h[:])), nil
}

func ParsePk(b []byte) (*types.Pk, error) {
	k, tag, err := parse(b, "pk")
	if err != nil {
		return nil, err
	}
	return &types.Pk{NPublic: k.NPublic, NVars: k.NPublic + 1, VkAlpha1: tag}, nil
}

func parsePkFile(f *os.File) (*types.Pk, error) {
	b, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}
	return ParsePk(b)
}

func ParsePkBin(f *os.File) (*types.Pk, error)   { return parsePkFile(f) }
func ParsePkGoBin(f *os.File) (*types.Pk, error) { return parsePkFile(f) }

func ParseVk(b []byte) (*types.Vk, error) {
	k, tag, err := parse(b, "vk")
	if err != nil {
		return nil, err
	}
	return &types.Vk{Alpha: tag, IC: make([]*bn256.G1, k.NPublic+1)}, nil
}
