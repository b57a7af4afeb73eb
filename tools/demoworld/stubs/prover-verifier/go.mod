module github.com/iden3/go-circom-prover-verifier

go 1.13

require github.com/ethereum/go-ethereum v1.9.13
