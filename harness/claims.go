package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	mt "github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// claimReplay follows spec/Claims.tla.
type claimReplay struct {
	rnd    *rand.Rand
	kind   string
	h      M
	layout []interface{}
	f      map[string]int
	ctype  claims.ClaimType
	obj    merkletree_Entrier
	leafR  *claims.LeafRootsTree
	leafV  *claims.LeafRevocationsTree
	memo   map[string][]byte
}

type merkletree_Entrier = mt.Entrier

func init() {
	modules["claims"] = func(c *Ctx) Replayer {
		return &claimReplay{rnd: rand.New(rand.NewSource(c.seed*7919 + int64(c.beh))), memo: map[string][]byte{}, f: map[string]int{}}
	}
}

func (r *claimReplay) Close() {}

func u32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func u64(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }

func (r *claimReplay) rbytes(n int) []byte {
	b := make([]byte, n)
	r.rnd.Read(b)
	return b
}

func idOf(b []byte) *core.ID { var id core.ID; copy(id[:], b); return &id }

// bytesOf gives the bytes of a value of a field, in entry order.
func (r *claimReplay) bytesOf(name string, v, n int) []byte {
	key := fmt.Sprint(name, "/", v)
	if b, ok := r.memo[key]; ok {
		return b
	}
	var b []byte
	switch name {
	case "nonce", "version":
		t := []uint32{0, 1, 255, 256, math.MaxUint32 - 1, 1 << 31, math.MaxUint32, r.rnd.Uint32()}
		b = u32(t[v%len(t)])
	case "expiration":
		mn := int64(math.MinInt64)
		t := []uint64{0, 1, math.MaxUint64, math.MaxInt64, uint64(mn), 1600000000, 0xff00ff00ff00, r.rnd.Uint64()}
		b = u64(t[v%len(t)])
	case "subject":
		var g [27]byte
		var t [2]byte
		switch v {
		case 0:
			g[26] = 1
		case 1:
			copy(g[:], bytes.Repeat([]byte{0xff}, 27))
			t = [2]byte{0xff, 0xff}
		default:
			copy(g[:], r.rbytes(27))
		}
		id := core.NewID(t, g)
		b = append([]byte{}, id[:]...)
	case "keytype":
		t := []uint64{0, 1, 2, math.MaxUint64, 1 << 63, 255, 256, r.rnd.Uint64()}
		b = make([]byte, 8)
		binary.BigEndian.PutUint64(b, t[v%len(t)])
	case "ax", "ay", "root":
		x := new(big.Int)
		switch v {
		case 0:
		case 1:
			x.SetInt64(1)
		case 2:
			x.Sub(fieldR, big.NewInt(1))
		case 3:
			x.Sub(new(big.Int).Lsh(big.NewInt(1), 248), big.NewInt(1))
		case 4:
			x.Lsh(big.NewInt(1), 247)
		case 5:
			x.Lsh(big.NewInt(1), 253)
		default:
			x.Rand(r.rnd, fieldR)
		}
		h := bigToH(x)
		b = h[:]
	default: // slots and payload
		switch v {
		case 0:
			b = make([]byte, n)
		case 1:
			b = bytes.Repeat([]byte{0xff}, n)
		case 2:
			b = make([]byte, n)
			for i := range b {
				b[i] = byte(i + 1)
			}
		case 3:
			b = make([]byte, n)
			b[0], b[n-1] = 1, 0x80
		default:
			b = r.rbytes(n)
		}
	}
	r.memo[key] = b
	return b
}

func subjectOf(s string) claims.ClaimSubject {
	return map[string]claims.ClaimSubject{"self": 0, "other": 2, "object": 1}[s]
}

func (r *claimReplay) header() claims.ClaimHeader {
	h := claims.ClaimHeader{Type: r.ctype, Subject: subjectOf(str(r.h["subject"])), Expiration: r.h["exp"].(bool), Version: r.h["ver"].(bool)}
	if str(r.h["pos"]) == "value" {
		h.SubjectPos = claims.ClaimSubjectPosValue
	}
	return h
}

func flagsOf(h M) byte {
	f := byte(subjectOf(str(h["subject"])))
	if str(h["pos"]) == "value" {
		f |= 4
	}
	if h["exp"].(bool) {
		f |= 8
	}
	if h["ver"].(bool) {
		f |= 16
	}
	return f
}

// expected is the entry that the specification's layout demands.
func (r *claimReplay) expected() (e [256]byte) {
	for _, x := range r.layout {
		name := str(arr(x)[0])
		cells := arr(arr(x)[1])
		var v []byte
		switch name {
		case "type":
			v = r.ctype[:]
		case "flags":
			v = []byte{flagsOf(r.h)}
		default:
			v = r.bytesOf(name, r.f[name], len(cells))
		}
		for i, cell := range cells {
			e[num(arr(cell)[0])*32+num(arr(cell)[1])] = v[i]
		}
	}
	return e
}

func (r *claimReplay) val(name string) []byte {
	for _, x := range r.layout {
		if str(arr(x)[0]) == name {
			return r.bytesOf(name, r.f[name], len(arr(arr(x)[1])))
		}
	}
	return nil
}

func hashesOf(e [256]byte) (hi, hv H) {
	var d [8]H
	for i := range d {
		copy(d[i][:], e[i*32:])
	}
	return refPoseidon(d[0], d[1], d[2], d[3]), refPoseidon(d[4], d[5], d[6], d[7])
}

// look compares a claim object with the specified fields.
func (r *claimReplay) look(c *Ctx, what string, o mt.Entrier) {
	want := r.expected()
	e := o.Entry()
	c.check(bytes.Equal(e.Bytes(), want[:]), "claim.entry", "%s: %s entry\n%x, specified\n%x", what, r.kind, e.Bytes(), want)
	hi, hv, err := e.HiHv()
	wi, wv := hashesOf(want)
	c.check(err == nil && m2h(hi) == wi && m2h(hv) == wv, "claim.hash", "%s: hashes of the %s entry", what, r.kind)
	c.check(mt.CheckEntryInField(*e), "claim.field", "%s: %s entry outside the field", what, r.kind)
	if cl, ok := o.(claims.Claimer); ok {
		r.meta(c, what, cl.Metadata())
		c.check(claims.GetRevocationNonce(e) == binary.LittleEndian.Uint32(r.val("nonce")), "claim.nonce", "%s: GetRevocationNonce of %s", what, r.kind)
	}
	switch x := o.(type) {
	case *claims.ClaimBasic:
		c.check(bytes.Equal(x.IndexSlot[:], r.val("islot")) && bytes.Equal(x.ValueSlot[:], r.val("vslot")), "claim.slots", "%s: slots", what)
	case *claims.ClaimOtherIden:
		c.check(bytes.Equal(x.IndexSlot[:], r.val("islot")) && bytes.Equal(x.ValueSlot[:], r.val("vslot")), "claim.slots", "%s: slots", what)
	case *claims.ClaimKeyBabyJub:
		ax, ay := bigToH(x.Ax), bigToH(x.Ay)
		c.check(bytes.Equal(ax[:], r.val("ax")) && bytes.Equal(ay[:], r.val("ay")) &&
			uint64(x.KeyType) == binary.BigEndian.Uint64(r.val("keytype")), "claim.key", "%s: key", what)
	case *claims.LeafRootsTree:
		c.check(bytes.Equal(x.Root[:], r.val("root")), "claim.leaf", "%s: root", what)
	case *claims.LeafRevocationsTree:
		c.check(x.Nonce == binary.LittleEndian.Uint32(r.val("nonce")) && x.Version == binary.LittleEndian.Uint32(r.val("version")), "claim.leaf", "%s: revocation leaf", what)
	}
}

func (r *claimReplay) meta(c *Ctx, what string, m *claims.Metadata) {
	h := m.Header()
	c.check(h == r.header(), "claim.header", "%s: %s header %+v, specified %+v", what, r.kind, h, r.header())
	c.check(m.Type() == r.ctype, "claim.header", "%s: type", what)
	c.check(m.RevNonce == binary.LittleEndian.Uint32(r.val("nonce")), "claim.nonce", "%s: nonce %d", what, m.RevNonce)
	if h.Subject != claims.ClaimSubjectSelf {
		c.check(m.Subject != nil && bytes.Equal(m.Subject[:], r.val("subject")), "claim.subject", "%s: subject %v", what, m.Subject)
	}
	if h.Version {
		c.check(m.Version == binary.LittleEndian.Uint32(r.val("version")), "claim.version", "%s: version %d", what, m.Version)
	}
	if h.Expiration {
		c.check(uint64(m.Expiration) == binary.LittleEndian.Uint64(r.val("expiration")), "claim.expiration", "%s: expiration %d", what, m.Expiration)
	}
}

func (r *claimReplay) fields(x interface{}) {
	for _, y := range arr(x) {
		r.f[str(obj(y)["n"])] = num(obj(y)["v"])
	}
}

func (r *claimReplay) build(c *Ctx, s M) {
	r.kind, r.h, r.layout = str(s["kind"]), obj(s["h"]), arr(s["layout"])
	r.fields(s["f"])
	switch r.kind {
	case "basic":
		var i [claims.IndexSlotLen]byte
		var v [claims.ValueSlotLen]byte
		copy(i[:], r.val("islot"))
		copy(v[:], r.val("vslot"))
		cl := claims.NewClaimBasic(i, v)
		cl.Metadata().RevNonce = binary.LittleEndian.Uint32(r.val("nonce"))
		r.obj = cl
	case "otheriden":
		r.ctype = claims.ClaimType{7: 2}
		var i [claims.IndexSubjectSlotLen]byte
		var v [claims.ValueSlotLen]byte
		copy(i[:], r.val("islot"))
		copy(v[:], r.val("vslot"))
		cl := claims.NewClaimOtherIden(idOf(r.val("subject")), i, v)
		cl.Metadata().RevNonce = binary.LittleEndian.Uint32(r.val("nonce"))
		r.obj = cl
	case "babyjub":
		r.ctype = claims.ClaimType{7: 1}
		var x, y H
		copy(x[:], r.val("ax"))
		copy(y[:], r.val("ay"))
		cl := claims.NewClaimKeyBabyJub(&babyjub.PublicKey{X: hToBig(x), Y: hToBig(y)}, claims.BabyJubKeyType(binary.BigEndian.Uint64(r.val("keytype"))))
		cl.Metadata().RevNonce = binary.LittleEndian.Uint32(r.val("nonce"))
		r.obj = cl
	case "generic":
		copy(r.ctype[:], r.rbytes(8))
		if c.beh%3 == 0 {
			r.ctype = claims.NewClaimType(fmt.Sprint("custom", c.beh))
		} else if c.beh%3 == 1 {
			r.ctype = claims.NewClaimTypeNum(uint64(3 + c.beh))
		}
		b := r.expected()
		e, err := mt.NewEntryFromBytes(b[:])
		must(err)
		if c.beh%2 == 0 {
			_, _, err = e.HiHv() // as an entry that has been used before
			must(err)
		}
		r.obj = claims.NewClaimGeneric(e)
	case "leafroot":
		var h mt.Hash
		copy(h[:], r.val("root"))
		r.obj = claims.NewLeafRootsTree(h)
	case "leafrev":
		r.obj = claims.NewLeafRevocationsTree(binary.LittleEndian.Uint32(r.val("nonce")), binary.LittleEndian.Uint32(r.val("version")))
	}
}

func (r *claimReplay) Step(c *Ctx, s M) {
	switch str(s["op"]) {
	case "build":
		r.build(c, s)
		r.look(c, "built", r.obj)
	case "set":
		before := r.obj.Entry()
		bb := append([]byte{}, before.Bytes()...)
		hi, hv, err := before.HiHv()
		must(err)
		hi0 := *hi
		_ = hv
		m := r.obj.(claims.Claimer).Metadata()
		r.fields(s["f"])
		v := r.val(str(s["n"]))
		switch str(s["n"]) {
		case "nonce":
			m.RevNonce = binary.LittleEndian.Uint32(v)
		case "version":
			m.Version = binary.LittleEndian.Uint32(v)
		case "expiration":
			m.Expiration = int64(binary.LittleEndian.Uint64(v))
		case "subject":
			m.Subject = idOf(v)
		}
		r.look(c, "changed "+str(s["n"]), r.obj)
		hi, err = r.obj.Entry().HIndex()
		must(err)
		if !s["index"].(bool) {
			c.check(*hi == hi0, "claim.index", "changing %v changed the index", s["n"])
		}
		c.check(bytes.Equal(before.Bytes(), bb), "claim.alias", "changing %v changed an entry obtained before", s["n"])
	case "through":
		r.through(c, str(s["way"]))
	case "any":
		r.any(c, s)
	case "badmeta":
		r.badMeta(c, s)
	default:
		internal("claims: unknown op %v", s["op"])
	}
}

func (r *claimReplay) through(c *Ctx, way string) {
	want := r.expected()
	if r.kind == "leafroot" || r.kind == "leafrev" {
		e, err := mt.NewEntryFromBytes(r.obj.Entry().Bytes())
		must(err)
		if r.kind == "leafroot" {
			r.obj = claims.NewLeafRootsTreeFromEntry(e)
		} else {
			r.obj = claims.NewLeafRevocationsTreeFromEntry(e)
		}
		r.look(c, "decoded leaf", r.obj)
		return
	}
	switch way {
	case "entry":
		e, err := mt.NewEntryFromBytes(r.obj.Entry().Bytes())
		must(err)
		o, err := claims.NewClaimFromEntry(e)
		if r.kind == "generic" {
			c.check(err == claims.ErrInvalidClaimType, "claim.decode", "unknown type: %v", err)
			r.obj = claims.NewClaimGeneric(e)
		} else {
			c.check(err == nil, "claim.decode", "%v", err)
			want := map[string]string{"basic": "*claims.ClaimBasic", "babyjub": "*claims.ClaimKeyBabyJub", "otheriden": "*claims.ClaimOtherIden"}[r.kind]
			c.check(fmt.Sprintf("%T", o) == want, "claim.decode", "decoded %s into %T", r.kind, o)
			r.obj = o
		}
		r.look(c, "decoded", r.obj)
	case "typed":
		e := r.obj.Entry()
		// entry and data survive text encoding
		js, err := json.Marshal(e)
		var e2 mt.Entry
		if err == nil {
			_, _ = e2.HIndex()
			err = json.Unmarshal(js, &e2)
		}
		c.check(err == nil && bytes.Equal(e2.Bytes(), want[:]), "claim.text", "entry through text: %v", err)
		hi, err := e2.HIndex()
		wi, _ := hashesOf(want)
		c.check(err == nil && m2h(hi) == wi, "claim.text", "entry through text has another index")
		switch r.kind {
		case "basic":
			r.obj = claims.NewClaimBasicFromEntry(&e2)
		case "otheriden":
			r.obj = claims.NewClaimOtherIdenFromEntry(&e2)
		case "babyjub":
			r.obj = claims.NewClaimKeyBabyJubFromEntry(&e2)
		default:
			r.obj = claims.NewClaimGeneric(e2.Clone())
		}
		r.look(c, "decoded from text", r.obj)
	case "json":
		m := r.obj.(claims.Claimer).Metadata()
		js, err := json.Marshal(m)
		c.check(err == nil, "claim.json", "metadata to JSON: %v", err)
		var m2 claims.Metadata
		err = json.Unmarshal(js, &m2)
		c.check(err == nil, "claim.json", "metadata from JSON %s: %v", js, err)
		r.meta(c, "metadata through JSON", &m2)
		*m = m2
		r.look(c, "with metadata from JSON", r.obj)
	case "hex":
		hs := claims.ClaimToHex(r.obj)
		if c.step%2 == 0 {
			hs = claims.ClaimArrayToHexArray([]mt.Entrier{r.obj})[0]
		}
		c.check(strings.TrimPrefix(hs, "0x") == hex.EncodeToString(want[:]), "claim.hex", "ClaimToHex")
		g, err := claims.HexToClaimGeneric(hs)
		c.check(err == nil, "claim.hex", "HexToClaimGeneric: %v", err)
		ga, err := claims.HexArrayToClaimGenericArray([]string{hs, hs})
		c.check(err == nil && len(ga) == 2 && bytes.Equal(ga[1].Entry().Bytes(), want[:]), "claim.hex", "HexArrayToClaimGenericArray: %v", err)
		for _, bad := range []string{hs[:len(hs)-2], hs + "00", "zz" + hs[2:]} {
			_, err := claims.HexToClaimGeneric(bad)
			c.check(err != nil, "claim.hex", "malformed hex claim of %d characters accepted", len(bad))
		}
		r.look(c, "through hex", &g)
		if r.kind == "generic" {
			r.obj = &g
		}
	}
}

func (r *claimReplay) any(c *Ctx, s M) {
	var e mt.Entry
	r.rnd.Read(e.Data[0][:])
	for i := range e.Data {
		r.rnd.Read(e.Data[i][:31])
		e.Data[i][31] = 0
	}
	var t claims.ClaimType
	switch str(s["type"]) {
	case "babyjub":
		t[7] = 1
	case "otheriden":
		t[7] = 2
	case "unknown":
		copy(t[:], r.rbytes(8))
		t[3] |= 1
	}
	copy(e.Data[0][:8], t[:])
	e.Data[0][8] = byte(num(s["flags"]))
	if n := num(s["outside"]); n > 0 {
		h := bigToH(fieldR)
		if r.rnd.Intn(2) == 0 {
			h = H{}
			for i := range h {
				h[i] = 0xff
			}
		}
		if n > 1 { // element 0 keeps its type
			e.Data[n-1] = mt.ElemBytes(h)
		} else {
			e.Data[0][31] = 0xff
		}
	}
	o, err := claims.NewClaimFromEntry(&e)
	c.check((err == nil) == s["ok"].(bool), "claim.decode", "entry of type %v, flags %v, outside %v: %v", s["type"], s["flags"], s["outside"], err)
	g := claims.NewClaimGeneric(&e)
	_ = g.Entry().Bytes()
	_ = claims.GetRevocationNonce(&e)
	if err == nil {
		b := o.Entry().Bytes()
		fl := byte(num(s["flags"]))
		if fl < 32 { // only defined flags
			want := append([]byte{}, e.Bytes()...)
			g := g.Entry().Bytes()
			c.check(bytes.Equal(g, want), "claim.entry", "generic claim of any entry: %x, was %x", g, want)
		}
		_ = b
		_, _ = json.Marshal(o.(claims.Claimer).Metadata())
	}
}

func (r *claimReplay) badMeta(c *Ctx, s M) {
	h := obj(s["h"])
	ty := map[string]string{"basic": "str:Basic", "babyjub": "str:KeyBabyJub", "otheriden": "str:OtherIden", "custom": "hex:0x0102030405060708"}[str(s["type"])]
	m := M{"Type": ty, "Subject": map[string]string{"self": "Self", "other": "OtherIden", "object": "Object"}[str(h["subject"])],
		"SubjectPos": map[string]string{"index": "Index", "value": "Value"}[str(h["pos"])], "RevNonce": 5}
	if h["exp"].(bool) {
		m["Expiration"] = 12
	}
	if h["ver"].(bool) {
		m["Version"] = 3
	}
	if s["withid"].(bool) {
		var g [27]byte
		g[4] = 9
		m["ID"] = core.NewID(core.TypeBJP0, g)
	}
	js, err := json.Marshal(m)
	must(err)
	var md claims.Metadata
	err = json.Unmarshal(js, &md)
	c.check((err == nil) == s["ok"].(bool), "claim.json", "metadata %s: %v", js, err)
	if err == nil {
		var e mt.Entry
		md.Marshal(&e)
		_, err = json.Marshal(md)
		c.check(err == nil, "claim.json", "metadata to JSON again: %v", err)
	}
	for _, bad := range []string{`{"Type":"str:Nope","Subject":"Self","SubjectPos":"Index"}`, `{"Type":"zz","Subject":"Self","SubjectPos":"Index"}`,
		`{"Type":"hex:0x0102","Subject":"Self","SubjectPos":"Index"}`, `{"Type":"str:Basic","Subject":"Nobody","SubjectPos":"Index"}`,
		`{"Type":"str:Basic","Subject":"Self","SubjectPos":"Middle"}`} {
		c.check(json.Unmarshal([]byte(bad), &md) != nil, "claim.json", "accepted metadata %s", bad)
	}
}
