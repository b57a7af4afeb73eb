package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/genesis"
	"github.com/iden3/go-iden3-core/db"
	mt "github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// identReplay follows spec/Ident.tla.
type identReplay struct {
	rnd    *rand.Rand
	roots  map[int]H
	keys   map[int]*babyjub.PublicKey
	states map[int]H
	ids    map[int]core.ID
}

func init() {
	modules["ident"] = func(c *Ctx) Replayer {
		return &identReplay{rnd: rand.New(rand.NewSource(c.seed*104729 + int64(c.beh))), roots: map[int]H{},
			keys: map[int]*babyjub.PublicKey{}, states: map[int]H{}, ids: map[int]core.ID{}}
	}
}

func (r *identReplay) Close() {}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// refBase58 is an independent base58 encoder.
func refBase58(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var s []byte
	m := new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, big.NewInt(58), m)
		s = append(s, b58[m.Int64()])
	}
	for _, v := range b {
		if v != 0 {
			break
		}
		s = append(s, '1')
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return string(s)
}

func byteArr(x interface{}) []byte {
	a := arr(x)
	b := make([]byte, len(a))
	for i := range a {
		b[i] = byte(num(a[i]))
	}
	return b
}

// refTree is the root of the set of leaves given by index and value hashes.
func refTree(ls [][2]H, lvl int) H {
	switch len(ls) {
	case 0:
		return H{}
	case 1:
		return refLeaf(ls[0][0], ls[0][1])
	}
	var l, r [][2]H
	for _, x := range ls {
		if refBit(x[0], lvl) == 0 {
			l = append(l, x)
		} else {
			r = append(r, x)
		}
	}
	return refMiddle(refTree(l, lvl+1), refTree(r, lvl+1))
}

func refEntry(d mt.Data) [2]H {
	var e [8]H
	for i := range d {
		e[i] = H(d[i])
	}
	return [2]H{refPoseidon(e[0], e[1], e[2], e[3]), refPoseidon(e[4], e[5], e[6], e[7])}
}

func (r *identReplay) Step(c *Ctx, s M) {
	switch str(s["op"]) {
	case "make":
		b := byteArr(s["b"])
		var typ [2]byte
		var gen [27]byte
		copy(typ[:], b[:2])
		copy(gen[:], b[2:29])
		id := core.NewID(typ, gen)
		c.check(bytes.Equal(id[:], b), "ident.make", "NewID(%x,%x) = %x, want %x", typ, gen, id[:], b)
		c.check(bytes.Equal(id.Bytes(), b), "ident.make", "Bytes() = %x, want %x", id.Bytes(), b)
		c.check(id.String() == refBase58(b), "ident.text", "String() = %q, want %q", id.String(), refBase58(b))
		t2, g2, ck, err := core.DecomposeID(id)
		c.check(err == nil && t2 == typ && g2 == gen && bytes.Equal(ck[:], b[29:]), "ident.make", "DecomposeID(%x) = %x %x %x %v", b, t2, g2, ck, err)
		le := make([]byte, 31)
		for i := range le {
			le[i] = b[30-i]
		}
		c.check(id.BigInt().Cmp(new(big.Int).SetBytes(le)) == 0, "ident.make", "BigInt() of %x = %v", b, id.BigInt())
		r.given(c, b, s["ok"].(bool))
	case "given":
		r.given(c, byteArr(s["b"]), s["ok"].(bool))
	case "text":
		b := byteArr(s["b"])
		t := refBase58(b)
		i := num(s["i"]) % len(t)
		switch str(s["kind"]) {
		case "badchar":
			t = t[:i] + string("0OIl+/=\x00\xff"[r.rnd.Intn(9)]) + t[i:]
		case "space":
			t = t[:i] + string(" \n\t"[r.rnd.Intn(3)]) + t[i:]
		case "empty":
			t = ""
		case "prefix1":
			t = "1" + t
		case "quote":
			t = "\"" + t + "\""
		case "case": // another letter: the bytes differ, so decide by them
			for j := 0; j < len(t); j++ {
				k := (i + j) % len(t)
				if n := t[k] ^ 0x20; t[k] >= 'A' && bytes.IndexByte([]byte(b58), n) >= 0 {
					t = t[:k] + string(n) + t[k+1:]
					break
				}
			}
			if id, err := core.IDFromString(t); err == nil {
				c.check(t == refBase58(id[:]) && (t == refBase58(b)) == bytes.Equal(id[:], b), "ident.text", "text %q read as %x", t, id[:])
				return
			}
			c.check(t != refBase58(b), "ident.text", "text %q refused", t)
			return
		}
		id, err := core.IDFromString(t)
		c.check(err != nil, "ident.accept", "IDFromString(%q) accepted as %x", t, id[:])
		var id2 core.ID
		c.check(id2.UnmarshalText([]byte(t)) != nil, "ident.accept", "UnmarshalText(%q) accepted", t)
	case "state":
		a := arr(s["roots"])
		var h [3]H
		for i := range a {
			n := num(a[i])
			if _, ok := r.roots[n]; !ok {
				x := new(big.Int).Rand(r.rnd, fieldR)
				switch n {
				case 0:
					x.SetInt64(0)
				case 1:
					x.SetInt64(1)
				case 2:
					x.Sub(fieldR, big.NewInt(1))
				}
				r.roots[n] = bigToH(x)
			}
			h[i] = r.roots[n]
		}
		x, y, z := mt.Hash(h[0]), mt.Hash(h[1]), mt.Hash(h[2])
		st := H(*core.IdenState(&x, &y, &z))
		c.check(st == refPoseidon(h[0], h[1], h[2]), "ident.state", "IdenState(%x) = %x", h, st)
		c.check(H(x) == h[0] && H(y) == h[1] && H(z) == h[2], "ident.state", "IdenState changed its arguments")
		k := num(s["class"])
		for o, v := range r.states {
			c.check((o == k) == (v == st), "ident.state", "state classes %d and %d: %x %x", o, k, v, st)
		}
		r.states[k] = st
		id := core.IdGenesisFromIdenState((*mt.Hash)(&st))
		body := append([]byte{0, 0}, st[5:]...)
		c.check(bytes.Equal(id[:29], body), "ident.genesis", "IdGenesisFromIdenState(%x) = %x", st, id[:])
	case "genesis":
		k := num(s["key"])
		if r.keys[k] == nil {
			var sk babyjub.PrivateKey
			r.rnd.Read(sk[:])
			if k == 1 {
				sk = babyjub.PrivateKey{}
			}
			r.keys[k] = sk.Public()
		}
		ok := s["ok"].(bool)
		build := func() (*claims.ClaimKeyBabyJub, []mt.Entrier, [][2]H) {
			kop := claims.NewClaimKeyBabyJub(r.keys[k], 0)
			var ex []mt.Entrier
			ls := [][2]H{refEntry(kop.Entry().Data)}
			for _, x := range arr(s["extras"]) {
				e := genesisExtra(num(x))
				ls = append(ls, refEntry(e.Entry().Data))
				ex = append(ex, e)
			}
			return kop, ex, ls
		}
		kop, ex, ls := build()
		id, err := genesis.CalculateIdGenesis(kop, ex)
		c.check((err == nil) == ok, "ident.genesis", "CalculateIdGenesis(%v): %v, want ok=%v", s, err, ok)
		if !ok {
			return
		}
		clr := refTree(ls, 0)
		ror := refTree([][2]H{refEntry(claims.NewLeafRootsTree(mt.Hash(clr)).Entry().Data)}, 0)
		var d mt.Data
		d[0] = mt.ElemBytes(clr)
		ror2 := refTree([][2]H{refEntry(d)}, 0)
		c.check(ror == ror2, "ident.genesis", "leaf of the roots tree")
		st := refPoseidon(clr, H{}, ror)
		body := append([]byte{0, 0}, st[5:]...)
		c.check(bytes.Equal(id[:29], body) && core.CheckChecksum(*id), "ident.genesis", "genesis id %x of state %x", id[:], st)
		// the same again, on other trees
		kop, ex, _ = build()
		clt, e1 := mt.NewMerkleTree(db.NewMemoryStorage(), 140)
		rot, e2 := mt.NewMerkleTree(db.NewMemoryStorage(), 140)
		must(e1)
		must(e2)
		id2, err := genesis.CalculateIdGenesisMT(clt, rot, kop, ex)
		c.check(err == nil && *id2 == *id, "ident.genesis", "second calculation: %v %v", id2, err)
		c.check(H(*clt.RootKey()) == clr && H(*rot.RootKey()) == ror, "ident.genesis", "trees of the genesis: %v %v", clt.RootKey(), rot.RootKey())
		n := num(s["class"])
		var os []int
		for o := range r.ids {
			os = append(os, o)
		}
		sort.Ints(os)
		for _, o := range os {
			c.check((o == n) == (r.ids[o] == *id), "ident.genesis", "genesis classes %d and %d: %x %x", o, n, r.ids[o], *id)
		}
		r.ids[n] = *id
	default:
		internal("ident op %v", s["op"])
	}
}

// genesisExtra is the n-th extra genesis claim; neighbours differ in one place only.
func genesisExtra(n int) mt.Entrier {
	var i [claims.IndexSlotLen]byte
	var v [claims.ValueSlotLen]byte
	switch {
	case n <= 4:
		i[0] = byte(n)
	case n <= 8:
		i[len(i)-1] = byte(n)
	default:
		i[50] = byte(n)
		v[len(v)-1] = byte(n)
	}
	return claims.NewClaimBasic(i, v)
}

func (r *identReplay) given(c *Ctx, b []byte, ok bool) {
	in := append([]byte{}, b...)
	id, err := core.IDFromBytes(in)
	c.check((err == nil) == ok, "ident.accept", "IDFromBytes(%x): %v, want ok=%v", b, err, ok)
	if ok {
		c.check(bytes.Equal(id[:], b), "ident.bytes", "IDFromBytes(%x) = %x", b, id[:])
		if len(in) > 0 {
			in[0] ^= 1
			c.check(bytes.Equal(id[:], b), "ident.bytes", "identifier shares its bytes")
		}
	}
	t := refBase58(b)
	id, err = core.IDFromString(t)
	c.check((err == nil) == ok, "ident.accept", "IDFromString(%q): %v, want ok=%v", t, err, ok)
	var id2 core.ID
	err2 := id2.UnmarshalText([]byte(t))
	c.check((err2 == nil) == ok, "ident.accept", "UnmarshalText(%q): %v, want ok=%v", t, err2, ok)
	j := []byte(fmt.Sprintf(`{"a":%q,"b":{%q:1}}`, t, t))
	var st struct {
		A core.ID         `json:"a"`
		B map[core.ID]int `json:"b"`
	}
	err3 := json.Unmarshal(j, &st)
	c.check((err3 == nil) == ok, "ident.accept", "JSON %s: %v, want ok=%v", j, err3, ok)
	if len(b) == 31 {
		var raw core.ID
		copy(raw[:], b)
		c.check(core.CheckChecksum(raw) == ok, "ident.accept", "CheckChecksum(%x) = %v", b, !ok)
	}
	if ok {
		c.check(bytes.Equal(id[:], b) && bytes.Equal(id2[:], b) && bytes.Equal(st.A[:], b), "ident.bytes", "decoded %x %x %x, want %x", id[:], id2[:], st.A[:], b)
		_, in := st.B[id]
		c.check(in, "ident.bytes", "map key")
		c.check(id.Equal(&id2) && id.Equals(&id2), "ident.bytes", "Equal")
		for i := range id {
			o := id
			o[i] ^= 1 << (uint(i) % 8)
			c.check(!id.Equal(&o) && !id.Equals(&o), "ident.bytes", "Equal at %d", i)
		}
		out, err := json.Marshal(st)
		c.check(err == nil && bytes.Equal(out, j), "ident.text", "JSON %s, want %s (%v)", out, j, err)
	}
}
