module github.com/iden3/go-circom-witnesscalc

go 1.13
