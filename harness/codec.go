package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"strings"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/crypto"
	mt "github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

// codecReplay follows spec/Codec.tla (C27).
type codecReplay struct{}

func init() { modules["codec"] = func(c *Ctx) Replayer { return &codecReplay{} } }

func (r *codecReplay) Close() {}

// octets turns a JSON list of numbers into bytes.
func octets(x interface{}) []byte {
	a := arr(x)
	b := make([]byte, len(a))
	for i, v := range a {
		b[i] = byte(num(v))
	}
	return b
}

func octetss(x interface{}) [][]byte {
	var bs [][]byte
	for _, v := range arr(x) {
		bs = append(bs, octets(v))
	}
	return bs
}

// fromDigits is the number with these base-256 digits, the lowest first.
func fromDigits(d []byte) *big.Int {
	n := new(big.Int)
	for i := len(d) - 1; i >= 0; i-- {
		n.Lsh(n, 8).Or(n, big.NewInt(int64(d[i])))
	}
	return n
}

func dataOf(b []byte) *mt.Data {
	var a [mt.ElemBytesLen * mt.DataLen]byte
	copy(a[:], b)
	return mt.NewDataFromBytes(a)
}

// encode gives every text form of b that codec cn has.
func codecEncode(c *Ctx, cn string, b []byte) []string {
	in := append([]byte{}, b...)
	var ts []string
	add := func(t []byte, err error) {
		c.check(err == nil, "codec.encode", "%s of %x: %v", cn, b, err)
		ts = append(ts, string(t))
	}
	switch cn {
	case "hex", "hexjson", "hexinto":
		add([]byte(common.HexEncode(in)), nil)
	case "hextype":
		add([]byte(common.Hex(in).String()), nil)
		add(common.Hex(in).MarshalText())
		j, err := json.Marshal(common.Hex(in))
		add(bytes.Trim(j, `"`), err)
	case "b64", "b64opt":
		add([]byte(common.BytesToBase64(in)), nil)
	case "b64raw": // only decoded
	case "hash":
		var h mt.Hash
		copy(h[:], in)
		for _, x := range []string{h.Hex(), strings.TrimPrefix(h.Hex(), "0x")} {
			var k mt.Hash
			guard(c, "codec.panic", func() { k = mt.HexStringToHash(x) })
			c.check(k == h, "codec.bytes", "HexStringToHash(%s) is %v", x, k)
		}
		add([]byte(h.Hex()), nil)
		add(h.MarshalText())
		j, err := json.Marshal(h)
		add(bytes.Trim(j, `"`), err)
		var k crypto.Hash
		copy(k[:], in)
		add([]byte(k.Hex()), nil)
		c.check(bytes.Equal(h.Bytes(), in), "codec.bytes", "hash bytes %x, want %x", h.Bytes(), in)
	case "data":
		add(dataOf(in).MarshalText())
		x := dataOf(in).Bytes()
		c.check(bytes.Equal(x[:], in), "codec.bytes", "data bytes %x, want %x", x, in)
		c.check(bytes.Equal(mt.ElemsBytesToBytes(dataOf(in)[:]), in), "codec.bytes", "elements to bytes differ from %x", in)
	case "entry":
		e := mt.Entry{Data: *dataOf(in)}
		add(e.MarshalText())
		c.check(bytes.Equal(e.Bytes(), in), "codec.bytes", "entry bytes %x, want %x", e.Bytes(), in)
		j, err := json.Marshal(&e)
		add(bytes.Trim(j, `"`), err)
	case "claim":
		add([]byte(claims.ClaimToHex(rawClaim{in})), nil)
	case "ctype":
		var ct claims.ClaimType
		copy(ct[:], in)
		add(ct.MarshalText())
		if n := binary.BigEndian.Uint64(in); n < 256 {
			c.check(claims.NewClaimTypeNum(n) == ct, "codec.ctype", "claim type number %d is %x", n, claims.NewClaimTypeNum(n))
		}
	default:
		internal("codec %s", cn)
	}
	c.check(bytes.Equal(in, b), "codec.input", "%s changed its input %x to %x", cn, b, in)
	return ts
}

type rawClaim struct{ b []byte }

func (r rawClaim) Entry() *mt.Entry { return &mt.Entry{Data: *dataOf(r.b)} }

type decoded struct {
	how string
	v   []byte
	err error
}

func quote(t string) []byte { b, _ := json.Marshal(t); return b }

// codecDecode gives what every way of decoding text t finds.
func codecDecode(c *Ctx, cn string, n int, t string) []decoded {
	var ds []decoded
	add := func(how string, v []byte, err error) { ds = append(ds, decoded{how, v, err}) }
	utf := func() bool {
		j := string(quote(t))
		var back string
		return json.Unmarshal([]byte(j), &back) == nil && back == t
	}()
	switch cn {
	case "hex":
		v, err := common.HexDecode(t)
		add("HexDecode", v, err)
	case "hexjson":
		if utf {
			v, err := common.UnmarshalJSONHexDecode(quote(t))
			add("UnmarshalJSONHexDecode", v, err)
		}
		_, err := common.UnmarshalJSONHexDecode([]byte(`{}`))
		c.check(err != nil, "codec.json", "an object is taken for a hexadecimal string")
	case "hexinto":
		v := bytes.Repeat([]byte{0xee}, n)
		err := common.HexDecodeInto(v, []byte(t))
		add("HexDecodeInto", v, err)
		if utf {
			w := bytes.Repeat([]byte{0xee}, n)
			err := common.UnmarshalJSONHexDecodeInto(w, quote(t))
			add("UnmarshalJSONHexDecodeInto", w, err)
		}
	case "hextype":
		h := common.Hex{1, 2, 3}
		err := h.UnmarshalText([]byte(t))
		add("Hex.UnmarshalText", h, err)
		if utf {
			var h common.Hex
			err := json.Unmarshal(quote(t), &h)
			add("Hex from JSON", h, err)
		}
	case "b64":
		v, err := common.Base64ToBytes(t)
		add("Base64ToBytes", v, err)
	case "b64opt", "b64raw":
		v, err := common.Base64Decode(t)
		add("Base64Decode", v, err)
	case "hash":
		h := mt.Hash{9}
		err := h.UnmarshalText([]byte(t))
		add("Hash.UnmarshalText", h[:], err)
		if utf {
			var h mt.Hash
			err := json.Unmarshal(quote(t), &h)
			add("Hash from JSON", h[:], err)
		}
	case "data":
		d := mt.Data{{9}}
		err := d.UnmarshalText([]byte(t))
		x := d.Bytes()
		add("Data.UnmarshalText", x[:], err)
	case "entry":
		e := mt.Entry{Data: mt.Data{{9}}}
		_, _, err0 := e.HiHv()
		must(err0)
		err := e.UnmarshalText([]byte(t))
		if err == nil {
			f := mt.Entry{Data: e.Data}
			h1, v1, e1 := e.HiHv()
			h2, v2, e2 := f.HiHv()
			c.check((e1 == nil) == (e2 == nil) && (e1 != nil || (h1.Equals(h2) && v1.Equals(v2))), "codec.entry",
				"the hashes of a decoded entry are %v %v, want %v %v", h1, v1, h2, v2)
			g := e.Clone()
			c.check(g.Equal(&e) && bytes.Equal(g.Bytes(), e.Bytes()), "codec.entry", "a cloned entry differs")
			g.Data[3][1] ^= 1
			c.check(!g.Equal(&e), "codec.entry", "a clone shares its data, or equality does not see it")
		}
		add("Entry.UnmarshalText", e.Bytes(), err)
		if utf {
			var e mt.Entry
			err := json.Unmarshal(quote(t), &e)
			add("Entry from JSON", e.Bytes(), err)
		}
	case "claim":
		g, err := claims.HexToClaimGeneric(t)
		if err == nil {
			add("HexToClaimGeneric", nil, nil)
			return ds // its content is looked at in "list"
		}
		add("HexToClaimGeneric", nil, err)
		_ = g
	case "ctype":
		ct := claims.ClaimType{1, 1, 1, 1, 1, 1, 1, 1}
		err := ct.UnmarshalText([]byte(t))
		add("ClaimType.UnmarshalText", ct[:], err)
		if utf {
			var ct claims.ClaimType
			err := json.Unmarshal(quote(t), &ct)
			add("ClaimType from JSON", ct[:], err)
		}
	}
	return ds
}

func (r *codecReplay) Step(c *Ctx, s M) {
	switch c.op {
	case "encode":
		b, t := octets(s["b"]), string(octets(s["t"]))
		for _, x := range codecEncode(c, str(s["c"]), b) {
			c.check(x == t, "codec.encode", "%s of %x is %q, want %q", str(s["c"]), b, x, t)
		}
	case "decode":
		t, want := string(octets(s["t"])), octets(s["v"])
		if str(s["c"]) == "ctype" || str(s["how"]) != "none" {
			c.bump("edited")
		}
		for _, d := range codecDecode(c, str(s["c"]), num(s["n"]), t) {
			switch str(s["exp"]) {
			case "ok":
				c.check(d.err == nil, "codec.refused", "%s %q: %v", d.how, t, d.err)
				if d.err == nil && str(s["c"]) != "claim" {
					c.check(bytes.Equal(d.v, want), "codec.decode", "%s %q is %x, want %x", d.how, t, d.v, want)
				}
			case "err":
				c.check(d.err != nil, "codec.accepted", "%s %q is taken for %x", d.how, t, d.v)
				c.bump("malformed")
			}
		}
	case "uint":
		d, le, be := octets(s["d"]), octets(s["le"]), octets(s["be"])
		n := fromDigits(d).Uint64()
		sw := append([]byte{}, le...)
		c.check(bytes.Equal(common.SwapEndianness(sw), be) && bytes.Equal(sw, le), "codec.uint", "swapping %x gives %x", le, common.SwapEndianness(sw))
		more := append(append([]byte{}, le...), 7) // a longer slice: only the first bytes count
		switch len(d) {
		case 2:
			c.check(bytes.Equal(common.Uint16ToBytes(uint16(n)), le), "codec.uint", "uint16 %d to %x", n, common.Uint16ToBytes(uint16(n)))
			c.check(common.BytesToUint16(le) == uint16(n) && common.BytesToUint16(more) == uint16(n), "codec.uint", "%x to uint16 %d", le, common.BytesToUint16(le))
		case 4:
			c.check(bytes.Equal(common.Uint32ToBytes(uint32(n)), le), "codec.uint", "uint32 %d to %x", n, common.Uint32ToBytes(uint32(n)))
			c.check(common.BytesToUint32(le) == uint32(n), "codec.uint", "%x to uint32 %d", le, common.BytesToUint32(le))
			c.check(bytes.Equal(common.Uint32ToEthBytes(uint32(n)), be), "codec.uint", "uint32 %d to %x", n, common.Uint32ToEthBytes(uint32(n)))
			c.check(common.EthBytesToUint32(be) == uint32(n), "codec.uint", "%x to uint32 %d", be, common.EthBytesToUint32(be))
		case 8:
			c.check(bytes.Equal(common.Uint64ToEthBytes(n), be), "codec.uint", "uint64 %d to %x", n, common.Uint64ToEthBytes(n))
			c.check(common.EthBytesToUint64(be) == n, "codec.uint", "%x to uint64 %d", be, common.EthBytesToUint64(be))
		}
	case "bits":
		n := num(s["n"])
		le, be := make([]byte, n), make([]byte, n)
		in := map[int]bool{}
		for _, x := range arr(s["set"]) {
			common.SetBit(le, uint(num(x)))
			common.SetBitBigEndian(be, uint(num(x)))
			in[num(x)] = true
		}
		c.check(bytes.Equal(le, octets(s["le"])), "codec.bits", "bits %v give %x, want %x", s["set"], le, octets(s["le"]))
		c.check(bytes.Equal(be, octets(s["be"])), "codec.bits", "bits %v give %x in big endian, want %x", s["set"], be, octets(s["be"]))
		le, be = octets(s["le"]), octets(s["be"])
		for i := 0; i < 8*n; i++ {
			c.check(common.TestBit(le, uint(i)) == in[i], "codec.bits", "bit %d of %x", i, le)
			c.check(common.TestBitBigEndian(be, uint(i)) == in[i], "codec.bits", "bit %d of %x in big endian", i, be)
		}
	case "elem":
		n, want := fromDigits(octets(s["d"])), octets(s["e"])
		keep := new(big.Int).Set(n)
		e, h := mt.NewElemBytesFromBigInt(n), mt.NewHashFromBigInt(n)
		c.check(bytes.Equal(e[:], want) && bytes.Equal(h[:], want), "codec.elem", "%v is %x and %x, want %x", n, e[:], h[:], want)
		var e2 mt.ElemBytes
		copy(e2[:], want)
		h2 := mt.Hash(e2)
		c.check(e2.BigInt().Cmp(n) == 0 && h2.BigInt().Cmp(n) == 0 && keep.Cmp(n) == 0, "codec.elem", "%x is %v, want %v", want, e2.BigInt(), keep)
		c.check(mt.ElemBytesToBigInts(e2, e2)[1].Cmp(n) == 0, "codec.elem", "%x is %v, want %v", want, mt.ElemBytesToBigInts(e2, e2)[1], keep)
		c.check(bytes.Equal(e2[:], want), "codec.elem", "reading the number changed the element to %x", e2[:])
	case "ints":
		var is []int64
		for _, d := range octetss(s["d"]) {
			is = append(is, fromDigits(d).Int64())
		}
		want := dataOf(bytes.Join(octetss(s["e"]), nil))
		d := mt.IntArrayToData(is)
		e, e2 := mt.NewEntryFromIntArray(is), mt.NewEntryFromInts(is[0], is[1], is[2], is[3], is[4], is[5], is[6], is[7])
		c.check(d.Equal(want) && e.Data.Equal(want) && e2.Data.Equal(want), "codec.ints", "numbers %v give %v, want %v", is, d, *want)
	case "hexs":
		var t []string
		for _, x := range octetss(s["t"]) {
			t = append(t, string(x))
		}
		want := dataOf(bytes.Join(octetss(s["e"]), nil))
		d, err := mt.HexsToData(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7])
		e, err2 := mt.NewEntryFromHexs(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7])
		if str(s["exp"]) == "ok" {
			c.check(err == nil && err2 == nil && d.Equal(want) && e.Data.Equal(want), "codec.hexs", "strings %q give %v (%v, %v), want %v", t, d, err, err2, *want)
		} else {
			c.check(err != nil && err2 != nil, "codec.hexs", "malformed strings %q give %v", t, d)
		}
	case "signals":
		var ps, got zkutils.PubSignals
		var e, t []string
		for i, d := range octetss(s["d"]) {
			ps = append(ps, fromDigits(d))
			e = append(e, string(octets(arr(s["e"])[i])))
			t = append(t, string(octets(arr(s["t"])[i])))
		}
		j, err := json.Marshal(ps)
		var back []string
		must(json.Unmarshal(j, &back))
		c.check(err == nil && len(back) == len(e), "codec.signals", "signals %v give %s (%v)", ps, j, err)
		for i := range e {
			c.check(back[i] == e[i] && ps[i].Cmp(fromDigits(octets(arr(s["d"])[i]))) == 0, "codec.signals", "signal %v gives %q, want %q", ps[i], back[i], e[i])
		}
		j, err = json.Marshal(append([]string{}, t...))
		must(err)
		guard(c, "codec.panic", func() { err = json.Unmarshal(j, &got) })
		if str(s["exp"]) == "err" {
			c.check(err != nil, "codec.signals", "malformed signals %q give %v", t, got)
			return
		}
		c.check(err == nil && len(got) == len(ps), "codec.signals", "signals %q give %v (%v), want %v", t, got, err, ps)
		for i := range ps {
			c.check(got[i].Cmp(ps[i]) == 0, "codec.signals", "signals %q give %v, want %v", t, got, ps)
		}
	case "inputs":
		one, many := fromDigits(octets(s["one"])), []*big.Int{}
		for _, d := range octetss(s["many"]) {
			many = append(many, fromDigits(d))
		}
		in := struct {
			One  *big.Int   `mapstructure:"one"`
			Many []*big.Int `mapstructure:"many"`
		}{one, many}
		for _, x := range []interface{}{in, map[string]interface{}{"one": one, "many": many}} {
			m, err := zkutils.InputsToMapStrings(x)
			ok := err == nil && len(m) == 2 && m["one"] == one.Text(10)
			l, _ := m["many"].([]string)
			ok = ok && len(l) == len(many)
			for i := range l {
				ok = ok && l[i] == many[i].Text(10)
			}
			c.check(ok, "codec.inputs", "inputs %v %v give %v (%v)", one, many, m, err)
		}
	case "hexz":
		var t []string
		var left []byte
		for _, x := range octetss(s["t"]) {
			t = append(t, string(x))
			b, err := common.HexDecode(string(x))
			must(err)
			left = append(left, append(new(big.Int).SetBytes(b).Bytes(), make([]byte, 32)...)[:32]...)
		}
		want := bytes.Join(octetss(s["e"]), nil)
		d, err := mt.HexsToData(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7])
		got := d.Bytes()
		if err == nil && !bytes.Equal(got[:], want) && bytes.Equal(got[:], left) {
			c.check(false, "codec.leadingzeros", "HexsToData drops the leading zeros of %q", t[1])
		}
		c.check(err == nil && bytes.Equal(got[:], want), "codec.hexs", "strings %q give %x (%v), want %x", t, got, err, want)
	case "bytes":
		b := octets(s["b"])
		e, err := mt.NewEntryFromBytes(b)
		if str(s["exp"]) == "ok" {
			c.check(err == nil && bytes.Equal(e.Bytes(), b), "codec.entry", "entry from bytes: %v", err)
			ix, v := e.Index(), e.Value()
			c.check(bytes.Equal(append(mt.ElemsBytesToBytes(ix), mt.ElemsBytesToBytes(v)...), b), "codec.entry", "index and value are not the halves of the entry")
		} else {
			c.check(err != nil, "codec.entry", "entry from %d bytes", len(b))
		}
	case "list":
		var cs []mt.Entrier
		for i, k := range arr(s["kinds"]) {
			cs = append(cs, codecClaim(num(k), i))
		}
		hs := claims.ClaimArrayToHexArray(cs)
		c.check(len(hs) == len(cs), "codec.list", "%d claims in %d strings", len(cs), len(hs))
		for i := range hs {
			c.check(hs[i] == claims.ClaimToHex(cs[i]), "codec.list", "claim %d in the list differs from itself alone", i)
		}
		if bad := num(s["bad"]); bad > 0 && bad <= len(hs) {
			h := &hs[bad-1]
			switch str(s["how"]) {
			case "short":
				*h = (*h)[:len(*h)-2]
			case "long":
				*h += "00"
			case "char":
				*h = (*h)[:100] + "g" + (*h)[101:]
			case "odd":
				*h += "0"
			case "prefix":
				*h = "0x" + *h
			}
		}
		gs, err := claims.HexArrayToClaimGenericArray(hs)
		if str(s["exp"]) == "err" {
			c.check(err != nil, "codec.list", "a damaged claim (%s) is accepted", str(s["how"]))
			c.bump("damaged")
			break
		}
		c.check(err == nil && len(gs) == len(cs), "codec.list", "claims from hexadecimal: %v, %d of %d", err, len(gs), len(cs))
		for i := range gs {
			if i < len(cs) {
				want := cs[i].Entry()
				c.check(gs[i].Entry().Equal(want), "codec.list", "claim %d comes back as %x, want %x", i, gs[i].Entry().Bytes(), want.Bytes())
				var m claims.Metadata
				m.Unmarshal(want)
				c.check(gs[i].Metadata().RevNonce == m.RevNonce, "codec.list", "claim %d comes back with nonce %d, want %d", i, gs[i].Metadata().RevNonce, m.RevNonce)
			}
		}
	case "leaf":
		var root mt.Hash
		copy(root[:], octets(s["root"]))
		e := claims.NewLeafRootsTree(root).Entry()
		want := make([]byte, 256)
		copy(want, root[:])
		c.check(bytes.Equal(e.Bytes(), want), "codec.leaf", "leaf of root %x is %x", root[:], e.Bytes())
		c.check(claims.NewLeafRootsTreeFromEntry(e).Root == root, "codec.leaf", "root %x comes back as %x", root[:], claims.NewLeafRootsTreeFromEntry(e).Root)
		nonce, ver := octets(s["nonce"]), octets(s["ver"])
		l := claims.NewLeafRevocationsTree(uint32(fromDigits(nonce).Uint64()), uint32(fromDigits(ver).Uint64()))
		e = l.Entry()
		want = make([]byte, 256)
		copy(want, nonce)
		copy(want[128:], ver)
		c.check(bytes.Equal(e.Bytes(), want), "codec.leaf", "leaf of nonce %x version %x is %x", nonce, ver, e.Bytes())
		c.check(*claims.NewLeafRevocationsTreeFromEntry(e) == *l, "codec.leaf", "revocation leaf %v comes back as %v", *l, *claims.NewLeafRevocationsTreeFromEntry(e))
	case "hash":
		parts := octetss(s["parts"])
		c.check(crypto.HashBytes(parts...) == crypto.HashBytes(bytes.Join(parts, nil)), "codec.hash", "the hash of %d parts is not that of their concatenation", len(parts))
		var es []mt.ElemBytes
		max := num(s["max"])
		var in [poseidon.T]*big.Int
		for i := range in {
			in[i] = new(big.Int)
		}
		for i, d := range octetss(s["elems"]) {
			var e mt.ElemBytes
			copy(e[:], d)
			es = append(es, e)
			if i < len(in) {
				in[i] = fromDigits(d)
			}
		}
		h, err := mt.HashElems(es...)
		if len(es) > max {
			c.check(err != nil, "codec.hash", "%d elements are hashed to %v", len(es), h)
		} else {
			want, err2 := poseidon.PoseidonHash(in)
			must(err2)
			c.check(err == nil && h.BigInt().Cmp(want) == 0, "codec.hash", "the hash of %v is %v (%v), want %v", es, h, err, want)
		}
		key := fromDigits(octets(s["key"]))
		kc := new(big.Int).Set(key)
		h, err = mt.HashElemsKey(key, es...)
		if len(es) > max-1 {
			c.check(err != nil, "codec.hash", "%d elements and a key are hashed to %v", len(es), h)
		} else {
			h0, err0 := mt.HashElemsKey(nil, es...)
			in[len(es)] = new(big.Int)
			want0, _ := poseidon.PoseidonHash(in)
			in[len(es)] = key
			want, err2 := poseidon.PoseidonHash(in)
			must(err2)
			c.check(err == nil && h.BigInt().Cmp(want) == 0 && key.Cmp(kc) == 0, "codec.hash", "the keyed hash of %v is %v (%v), want %v", es, h, err, want)
			c.check(err0 == nil && h0.BigInt().Cmp(want0) == 0, "codec.hash", "the hash without a key of %v is %v (%v), want %v", es, h0, err0, want0)
		}
	default:
		internal("op %s", c.op)
	}
}

// codecClaim is one of a few claims of the different kinds.
func codecClaim(k, i int) mt.Entrier {
	var ix [claims.IndexSlotLen]byte
	var sx [claims.IndexSubjectSlotLen]byte
	var vs [claims.ValueSlotLen]byte
	for j := range ix {
		ix[j] = byte(k*31 + i + j)
	}
	for j := range vs {
		vs[j] = byte(k*17 + i*3 + j)
	}
	switch k % 3 {
	case 0:
		cl := claims.NewClaimBasic(ix, vs)
		cl.Metadata().RevNonce = uint32(k*1000003 + i)
		return cl
	case 1:
		sk := ksSecret(k)
		cl := claims.NewClaimKeyBabyJub(sk.Public(), 1)
		cl.Metadata().RevNonce = uint32(k << 24)
		return cl
	}
	var g [27]byte
	copy(g[:], ix[:])
	id := core.NewID(core.TypeBJP0, g)
	copy(sx[:], ix[7:])
	cl := claims.NewClaimOtherIden(&id, sx, vs)
	return cl
}
