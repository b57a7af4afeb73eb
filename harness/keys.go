package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"sort"
	"sync"

	"github.com/iden3/go-iden3-crypto/poseidon"
)

// Independent evaluation of the hash construction that the specification
// prescribes.  Nothing here uses the code under test.

type H [32]byte // little-endian field element, as stored by the system

func hToBig(h H) *big.Int {
	var b [32]byte
	for i := range h {
		b[31-i] = h[i]
	}
	return new(big.Int).SetBytes(b[:])
}

func bigToH(v *big.Int) (h H) {
	b := v.Bytes()
	for i := range b {
		h[len(b)-1-i] = b[i]
	}
	return h
}

func refPoseidon(in ...H) H {
	var a [poseidon.T]*big.Int
	for i := range a {
		a[i] = big.NewInt(0)
	}
	for i, h := range in {
		a[i] = hToBig(h)
	}
	r, err := poseidon.PoseidonHash(a)
	if err != nil {
		panic(err)
	}
	return bigToH(r)
}

var hOne = H{1}

func refLeaf(hi, hv H) H    { return refPoseidon(hi, hv, hOne) }
func refMiddle(l, r H) H    { return refPoseidon(l, r) }
func refBit(h H, n int) int { return int(h[n/8]>>(uint(n)%8)) & 1 }

// KeyRow is one abstract key of the specification: the index part of an entry
// together with the leading bits of its path.
type KeyRow struct {
	Index [4]string `json:"index"` // hex, little-endian
	Path  []int     `json:"path"`
}

func (r *KeyRow) elems() (e [4]H) {
	for i := range e {
		b, err := hex.DecodeString(r.Index[i])
		if err != nil || len(b) != 32 {
			panic("bad key table")
		}
		copy(e[i][:], b)
	}
	return e
}

func (r *KeyRow) hi() H { e := r.elems(); return refPoseidon(e[0], e[1], e[2], e[3]) }

func loadKeys(path string) []KeyRow {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var rows []KeyRow
	if err := json.Unmarshal(b, &rows); err != nil {
		panic(err)
	}
	return rows
}

func candIndex(n int) (e [4]H) {
	// spread the distinguishing data over all four elements and sizes
	v := H{byte(n), byte(n >> 8), byte(n >> 16)}
	switch n % 5 {
	case 0:
		e[0] = v
	case 1:
		e[1] = v
	case 2:
		e[2] = v
	case 3:
		e[3] = v
	case 4:
		for i := range e {
			e[i] = v
			e[i][30] = byte(0xff - i)
			e[i][20+i] = byte(n)
		}
	}
	return e
}

// mktable searches for entries whose paths share long prefixes.
func mktable(out string, n int) {
	type row struct {
		n  int
		hi H
	}
	rows := make([]row, n)
	var wg sync.WaitGroup
	const W = 8
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < n; i += W {
				e := candIndex(i + 1)
				rows[i] = row{i + 1, refPoseidon(e[0], e[1], e[2], e[3])}
			}
		}(w)
	}
	wg.Wait()
	rev := func(h H) (r [8]byte) {
		for i := 0; i < 64; i++ {
			if refBit(h, i) == 1 {
				r[i/8] |= 0x80 >> (uint(i) % 8)
			}
		}
		return
	}
	sort.Slice(rows, func(i, j int) bool {
		a, b := rev(rows[i].hi), rev(rows[j].hi)
		return string(a[:]) < string(b[:])
	})
	share := func(i, j int) int {
		k := 0
		for k < 256 && refBit(rows[i].hi, k) == refBit(rows[j].hi, k) {
			k++
		}
		return k
	}
	best := make([]int, n-1)
	for i := range best {
		best[i] = share(i, i+1)
	}
	idx := make([]int, n-1)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return best[idx[a]] > best[idx[b]] })
	taken := map[int]bool{}
	var sel []int
	add := func(i int) {
		if !taken[i] {
			taken[i] = true
			sel = append(sel, i)
		}
	}
	for _, i := range idx[:6] { // deepest pairs, with their neighbours
		fmt.Fprintln(os.Stderr, "pair shares", best[i])
		add(i)
		add(i + 1)
		if i > 0 {
			add(i - 1)
		}
		if i+2 < n {
			add(i + 2)
		}
	}
	// small dense group: first key found for every 4-bit prefix
	seen := map[int]int{}
	for i := range rows {
		p := 0
		for b := 0; b < 4; b++ {
			p = p<<1 | refBit(rows[i].hi, b)
		}
		if seen[p] < 2 {
			seen[p]++
			add(i)
		}
	}
	var res []KeyRow
	for _, i := range sel {
		e := candIndex(rows[i].n)
		var r KeyRow
		for k := range e {
			r.Index[k] = hex.EncodeToString(e[k][:])
		}
		for b := 0; b < 248; b++ {
			r.Path = append(r.Path, refBit(rows[i].hi, b))
		}
		res = append(res, r)
	}
	b, _ := json.Marshal(res)
	if err := ioutil.WriteFile(out, b, 0644); err != nil {
		panic(err)
	}
	fmt.Fprintln(os.Stderr, len(res), "keys")
}
