#!/bin/bash
# Runs the demonstration in package identity of the repository in the working
# directory, with an ideal proof system in place of the zero-knowledge one.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
{ echo '{"Replace":{'; for f in "$here"/*_test.go; do echo "\"$repo/identity/zz_$(basename $f)\":\"$f\","; done; echo '"/nonexistent":""}}'; } > "$t/overlay.json"
cp go.sum "$t/go.sum"
{ cat go.mod; echo "replace github.com/iden3/go-circom-prover-verifier => $here/stubs/prover-verifier"
  echo "replace github.com/iden3/go-circom-witnesscalc => $here/stubs/witnesscalc"; } > "$t/go.mod"
TMPDIR="$t" GOFLAGS=-mod=mod go test -vet=off -count=1 -timeout 200s -modfile "$t/go.mod" -overlay "$t/overlay.json" -run '^TestZZDemo' ./identity
