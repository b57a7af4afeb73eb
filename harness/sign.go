package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"time"

	"github.com/ethereum/go-ethereum/accounts"
	ethks "github.com/ethereum/go-ethereum/accounts/keystore"
	ethcommon "github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/iden3/go-iden3-core/components/idensigner"
	"github.com/iden3/go-iden3-core/crypto"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

// Replays behaviours of Sign.tla (C21).

type signWorld struct {
	ks   *keystore.KeyStore
	pks  []*babyjub.PublicKeyComp
	sks  []babyjub.PrivateKey
	iss  []*issuer.Issuer
	idss []*idensigner.IdenSigner
	eks  *ethks.KeyStore
	accs []accounts.Account
	epk  []*ecdsa.PrivateKey
}

var signW *signWorld

const signKeys = 4

var fieldQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func getSignWorld(c *Ctx) *signWorld {
	if signW != nil {
		return signW
	}
	w := &signWorld{}
	var err error
	w.ks, err = keystore.NewKeyStore(&keystore.MemStorage{}, ksParams)
	must(err)
	dir := filepath.Join(c.dir, "ethks")
	must(os.MkdirAll(dir, 0700))
	w.eks = ethks.NewKeyStore(dir, 2, 1)
	for i := 0; i < signKeys; i++ {
		sk := ksSecret(i + 10)
		pk, err := w.ks.ImportKey(sk, []byte("p"))
		must(err)
		must(w.ks.UnlockKey(pk, []byte("p")))
		w.pks, w.sks = append(w.pks, pk), append(w.sks, sk)
		st := db.NewMemoryStorage()
		_, err = issuer.Create(issuer.Config{MaxLevelsClaimsTree: 140, MaxLevelsRevocationTree: 140, MaxLevelsRootsTree: 140, GenesisOnly: true}, pk, nil, st, w.ks)
		must(err)
		is, err := issuer.Load(st, w.ks, nil, nil, nil)
		must(err)
		w.iss = append(w.iss, is)
		w.idss = append(w.idss, idensigner.New(w.ks, *sk.Public()))
		ek, err := ethcrypto.ToECDSA(bytes.Repeat([]byte{byte(i + 1)}, 32))
		must(err)
		acc, err := w.eks.ImportECDSA(ek, "p")
		must(err)
		must(w.eks.Unlock(acc, "p"))
		w.accs, w.epk = append(w.accs, acc), append(w.epk, ek)
	}
	signW = w
	return w
}

// oneSig is a signature and what it was made for.
type oneSig struct {
	kind        string
	key         int
	prefix, msg int
	date        int64
	comp        babyjub.SignatureComp
	eth         crypto.SignatureEthMsg
}

type signReplay struct {
	w    *signWorld
	c    *Ctx
	now  int64
	sigs []oneSig
}

const signBase = 1600000000

func init() {
	modules["sign"] = func(c *Ctx) Replayer {
		if setClock == nil {
			internal("this binary has no settable clock")
		}
		setClock(time.Unix(signBase, 0))
		return &signReplay{w: getSignWorld(c), c: c}
	}
}

func (r *signReplay) Close() {}

func signPrefix(p int) []byte {
	return [][]byte{keystore.PrefixMinorUpdate, {}, []byte("minorupdatf"), []byte("m"), []byte("\x00\x00\x00\x00\x00\x00\x00\x01"), bytes.Repeat([]byte{0xff}, 31), []byte("setstate:")}[(p-1)%7]
}

// signMsg is a table of messages, many of them near to one another.
func signMsg(m int) []byte {
	base := make([]byte, 200)
	for i := range base {
		base[i] = byte(i*37 + 11)
	}
	switch m {
	case 1:
		return []byte{}
	case 2:
		return []byte("message")
	case 3:
		return []byte("messagf")
	case 4:
		return []byte("message ")
	case 5:
		return []byte("\x01message")
	case 6, 7, 8, 9, 10, 11: // around the sizes of the chunks
		return base[:[]int{30, 31, 32, 61, 62, 63}[m-6]]
	case 12, 13, 14: // one bit of a long message
		b := append([]byte{}, base[:155]...)
		b[[]int{0, 77, 154}[m-12]] ^= 1 << uint(m%8)
		return b
	case 15:
		return base[:155]
	case 16: // two chunks exchanged
		return append(append([]byte{}, base[31:62]...), base[:31]...)
	case 17:
		return base[:186]
	case 18:
		return bytes.Repeat([]byte{0xff}, 31)
	case 19:
		return bytes.Repeat([]byte{0xff}, 400)
	default:
		return []byte(fmt.Sprintf("message %d", m))
	}
}

// signElem is the field element of a message.
func signElem(m int) *big.Int {
	switch m {
	case 1:
		return big.NewInt(0)
	case 2:
		return big.NewInt(1)
	case 3:
		return new(big.Int).Sub(fieldQ, big.NewInt(1))
	case 4:
		return new(big.Int).Rsh(fieldQ, 1)
	case 5:
		return new(big.Int).Lsh(big.NewInt(1), 253)
	default:
		return new(big.Int).Mod(new(big.Int).SetBytes(append(signMsg(m), byte(m))), fieldQ)
	}
}

// laid places the caller's bytes in memory in one of several ways, and checks
// afterwards that they are as they were.
type laid struct {
	prefix, msg []byte
	whole, was  []byte
}

func lay(l int, prefix, msg []byte) laid {
	p, m := append([]byte{}, prefix...), append([]byte{}, msg...)
	switch l {
	case 1: // apart, no room behind
		return laid{p[:len(p):len(p)], m[:len(m):len(m)], nil, nil}
	case 2: // the prefix in front of the message
		b := append(append(make([]byte, 0, len(p)+len(m)+64), p...), m...)
		return laid{b[:len(p)], b[len(p) : len(p)+len(m) : len(p)+len(m)], b, append([]byte{}, b...)}
	case 3: // the message in a larger buffer
		b := append(append(append(make([]byte, 0, 600), p...), m...), bytes.Repeat([]byte{0xaa}, 40)...)
		return laid{b[:len(p):len(p)], b[len(p) : len(p)+len(m)], b, append([]byte{}, b...)}
	default: // the message in front of the prefix
		b := append(append(append(make([]byte, 0, 600), m...), p...), bytes.Repeat([]byte{0x55}, 40)...)
		return laid{b[len(m) : len(m)+len(p)], b[:len(m)], b, append([]byte{}, b...)}
	}
}

func (r *signReplay) kept(l laid) {
	r.c.check(bytes.Equal(l.whole, l.was), "sign.alias", "the caller's bytes were overwritten")
}

func (r *signReplay) stateHashes(m int) (a, b *merkletree.Hash) {
	x, y := merkletree.NewHashFromBigInt(signElem(m)), merkletree.NewHashFromBigInt(signElem(m+1))
	return x, y
}

func (r *signReplay) elems(m int) (e [poseidon.T]*big.Int) {
	for i := range e {
		e[i] = signElem(m + i*i)
	}
	return e
}

// sign makes a signature of a token.
func (r *signReplay) sign(t M, l int) oneSig {
	w, c := r.w, r.c
	s := oneSig{kind: str(t["kind"]), key: num(t["key"]), prefix: num(t["prefix"]), msg: num(t["msg"])}
	k := s.key - 1
	var pre []byte
	if s.prefix != 0 {
		pre = signPrefix(s.prefix)
	}
	b := lay(l, pre, signMsg(s.msg))
	var comp *babyjub.SignatureComp
	var err error
	date := signBase + r.now
	switch s.kind {
	case "elem":
		comp, err = w.ks.SignElem(w.pks[k], signElem(s.msg))
	case "raw":
		comp, err = w.ks.SignRaw(w.pks[k], b.msg)
	case "dated":
		comp, s.date, err = w.ks.Sign(w.pks[k], b.prefix, b.msg)
		c.check(s.date == date, "sign.date", "dated %d at %d", s.date, date)
		r.whileItTicks(s.kind, w.pks[k], k, b.prefix, b.msg)
	case "iden":
		comp, err = w.idss[k].SignEthMsg(b.msg)
	case "idendate":
		comp, s.date, err = w.idss[k].SignEthMsgDate(b.msg)
		c.check(s.date == date, "sign.date", "dated %d at %d", s.date, date)
		r.whileItTicks(s.kind, w.pks[k], k, b.prefix, b.msg)
	case "binary":
		comp, err = w.iss[k].SignBinary(b.prefix, b.msg)
	case "state":
		x, y := r.stateHashes(s.msg)
		comp, err = w.iss[k].SignState(x, y)
	case "elems":
		comp, err = w.iss[k].SignElems(r.elems(s.msg))
	case "eth", "ethdate":
		m := b.msg
		if s.kind == "ethdate" {
			s.date = date
			m = append(append([]byte{}, m...), u64be(date)...)
		}
		var sig *crypto.SignatureEthMsg
		sig, err = crypto.SignEthMsg(w.eks, w.accs[k], m)
		if err == nil {
			s.eth = *sig
		}
	default:
		internal("kind %s", s.kind)
	}
	c.check(err == nil, "sign.make", "signing %v: %v", t, err)
	if comp != nil {
		s.comp = *comp
	}
	r.kept(b)
	return s
}

func u64be(x int64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(uint64(x) >> uint(56-8*i))
	}
	return b
}

// bytesOf is what a token's form signs.
func bytesOf(kind string, pre []byte, date int64, msg []byte) []byte {
	b := append([]byte{}, pre...)
	if kind == "dated" || kind == "ethdate" || kind == "idendate" {
		if kind == "dated" {
			b = append(b, u64be(date)...)
			return append(b, msg...)
		}
		return append(append(b, msg...), u64be(date)...)
	}
	return append(b, msg...)
}

// ask verifies a signature for a token given by its parts.
func (r *signReplay) ask(s oneSig, pk *babyjub.PublicKeyComp, addr ethcommon.Address, m int, pre, msg []byte, date int64, l int) (bool, error) {
	b := lay(l, pre, msg)
	defer r.kept(b)
	sig := s.comp
	switch s.kind {
	case "elem":
		return keystore.VerifySignatureElem(pk, signElem(m), &sig)
	case "state":
		x, y := r.stateHashes(m)
		var e [poseidon.T]*big.Int
		var p31 [31]byte
		copy(p31[:], "setstate:")
		var h H
		copy(h[:], p31[:])
		e = [poseidon.T]*big.Int{hToBig(h), x.BigInt(), y.BigInt(), big.NewInt(0), big.NewInt(0), big.NewInt(0)}
		h = refPoseidon(bigToH(e[0]), bigToH(e[1]), bigToH(e[2]))
		return keystore.VerifySignatureElem(pk, hToBig(h), &sig)
	case "elems":
		x, err := poseidon.PoseidonHash(r.elems(m))
		must(err)
		return keystore.VerifySignatureElem(pk, x, &sig)
	case "raw", "iden":
		return keystore.VerifySignatureRaw(pk, &sig, b.msg)
	case "binary", "idendate":
		return keystore.VerifySignatureRaw(pk, &sig, bytesOf(s.kind, pre, date, msg))
	case "dated":
		return keystore.VerifySignature(pk, &sig, b.prefix, date, b.msg)
	case "eth":
		e := s.eth
		return crypto.VerifySigEthMsg(addr, &e, b.msg), nil
	case "ethdate":
		e := s.eth
		return crypto.VerifySigEthMsgDate(addr, &e, b.msg, date), nil
	}
	internal("kind %s", s.kind)
	return false, nil
}

// away asks for signatures of a key that is locked, or whose store was closed.
func (r *signReplay) away(c *Ctx, k, m int, how string) {
	ks, err := keystore.NewKeyStore(&keystore.MemStorage{}, ksParams)
	must(err)
	pk, err := ks.ImportKey(r.w.sks[k], []byte("p"))
	must(err)
	switch how {
	case "locked":
	case "wrongpass":
		c.check(ks.UnlockKey(pk, []byte("q")) != nil, "sign.away", "unlocked with another passphrase")
	default:
		must(ks.UnlockKey(pk, []byte("p")))
		c.check(ks.Close() == nil, "sign.away", "closing")
		if how == "reclosed" {
			ks.Close() //nolint:errcheck
		}
	}
	judge := func(form string, err error, verify func() (bool, error)) {
		if err != nil {
			c.bump("away_refused")
			return
		}
		ok, e := verify()
		c.check(ok && e == nil, "sign.away", "a key that is %s made a signature (%s) that does not stand for its message: %v", how, form, e)
	}
	sig, err := ks.SignElem(pk, signElem(m))
	judge("elem", err, func() (bool, error) { return keystore.VerifySignatureElem(pk, signElem(m), sig) })
	sig, err = ks.SignRaw(pk, signMsg(m))
	judge("raw", err, func() (bool, error) { return keystore.VerifySignatureRaw(pk, sig, signMsg(m)) })
	sig, date, err := ks.Sign(pk, signPrefix(1), signMsg(m))
	judge("dated", err, func() (bool, error) {
		return keystore.VerifySignature(pk, sig, signPrefix(1), date, signMsg(m))
	})
	sig, date, err = idensigner.New(ks, *r.w.sks[k].Public()).SignEthMsgDate(signMsg(m))
	judge("idendate", err, func() (bool, error) {
		return keystore.VerifySignatureRaw(pk, sig, append(append([]byte{}, signMsg(m)...), u64be(date)...))
	})
	ks.Close() //nolint:errcheck
}

// whileItTicks signs while the second changes: the signature is for the date
// that is given with it.
func (r *signReplay) whileItTicks(kind string, pk *babyjub.PublicKeyComp, k int, prefix, msg []byte) {
	c, w := r.c, r.w
	var sig *babyjub.SignatureComp
	var date int64
	var err error
	start := signBase + r.now
	runClock(time.Unix(start, 999999999), time.Second)
	if kind == "dated" {
		sig, date, err = w.ks.Sign(pk, prefix, msg)
	} else {
		sig, date, err = w.idss[k].SignEthMsgDate(msg)
	}
	end := time.Now().Unix()
	setClock(time.Unix(start, int64(c.step)*7919%1000*1000000))
	c.check(err == nil && date >= start && date <= end, "sign.date", "%s signature dated %d, between %d and %d: %v", kind, date, start, end, err)
	var ok bool
	if kind == "dated" {
		ok, err = keystore.VerifySignature(pk, sig, prefix, date, msg)
	} else {
		ok, err = keystore.VerifySignatureRaw(pk, sig, append(append([]byte{}, msg...), u64be(date)...))
	}
	c.check(ok && err == nil, "sign.date", "a %s signature does not verify with the date given with it: %v", kind, err)
	c.bump("ticking")
}

func sameHash(a, b []byte) bool { return poseidon.HashBytes(a).Cmp(poseidon.HashBytes(b)) == 0 }

func (r *signReplay) Step(c *Ctx, st M) {
	w := r.w
	switch str(st["op"]) {
	case "tick":
		r.now = int64(num(st["now"]))
		setClock(time.Unix(signBase+r.now, int64(c.step)*7919%1000*1000000))
	case "sign":
		r.sigs = append(r.sigs, r.sign(obj(st["t"]), num(st["l"])))
		c.bump("kind_" + r.sigs[len(r.sigs)-1].kind)
	case "verify":
		s := r.sigs[num(st["i"])-1]
		t := obj(st["t"])
		var pre []byte
		if p := num(t["prefix"]); p != 0 {
			pre = signPrefix(p)
		}
		m := num(t["msg"])
		date := s.date
		if d := int64(num(t["date"])); s.date != 0 {
			date = signBase + d
			if d == 0 && date != s.date {
				date = 0
			}
		}
		k := num(t["key"]) - 1
		pk, addr := *w.pks[k], w.accs[k].Address
		exp := st["exp"] == true
		how := fmt.Sprintf("%s signature of %+v asked for %v", s.kind, s.key, t)
		if str(st["what"]) == "alter" {
			x := num(st["x"])
			how = r.alter(x, &s, &pk, &addr)
			if how == "" {
				return
			}
			c.bump("altered")
		} else if !exp && (s.kind == "raw" || s.kind == "iden" || s.kind == "binary" || s.kind == "dated" || s.kind == "idendate") {
			var pre0 []byte
			if s.prefix != 0 {
				pre0 = signPrefix(s.prefix)
			}
			if k == s.key-1 && sameHash(bytesOf(s.kind, pre0, s.date, signMsg(s.msg)), bytesOf(s.kind, pre, date, signMsg(m))) {
				c.bump("ambiguous") // see pad and shift
				return
			}
		}
		ok, err := r.ask(s, &pk, addr, m, pre, signMsg(m), date, num(st["l"]))
		if exp {
			c.check(ok && err == nil, "sign.accept", "refused (%v): %s", err, how)
			c.bump("accepted")
		} else {
			c.check(!ok, "sign.reject", "accepted: %s", how)
			c.bump("rejected")
		}
	case "pad":
		s := r.sigs[num(st["i"])-1]
		var pre []byte
		if s.prefix != 0 {
			pre = signPrefix(s.prefix)
		}
		msg := append(signMsg(s.msg)[:len(signMsg(s.msg)):len(signMsg(s.msg))], make([]byte, num(st["n"]))...)
		ok, err := r.ask(s, w.pks[s.key-1], ethcommon.Address{}, s.msg, pre, msg, s.date, 1)
		c.bump("padded")
		c.check(!ok, "sign.padding", "a %s signature of %x is accepted for the message followed by %d zero bytes (%v)", s.kind, signMsg(s.msg), num(st["n"]), err)
	case "shift":
		s := r.sigs[num(st["i"])-1]
		n := num(st["n"])
		pre, msg := signPrefix(s.prefix), signMsg(s.msg)
		if len(msg) < n {
			return
		}
		date := s.date
		if s.kind == "dated" {
			all := append(u64be(s.date), msg...)
			pre = append(append([]byte{}, pre...), all[:n]...)
			date = 0
			for _, b := range all[n : n+8] {
				date = date<<8 | int64(b)
			}
			msg = all[n+8:]
		} else {
			pre, msg = append(append([]byte{}, pre...), msg[:n]...), msg[n:]
		}
		ok, err := r.ask(s, w.pks[s.key-1], ethcommon.Address{}, s.msg, pre, msg, date, 1)
		c.bump("shifted")
		c.check(!ok, "sign.boundary", "a %s signature of prefix %x, date %d, message %x is accepted for prefix %x, date %d, message %x (%v)", s.kind, signPrefix(s.prefix), s.date, signMsg(s.msg), pre, date, msg, err)
	case "outside":
		k := num(st["k"]) - 1
		x := []*big.Int{fieldQ, new(big.Int).Add(fieldQ, big.NewInt(5)), big.NewInt(-1), new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Neg(fieldQ)}[num(st["n"])-1]
		_, err := w.ks.SignElem(w.pks[k], x)
		c.check(err != nil, "sign.outside", "signed %v, which is no field element", x)
		in := new(big.Int).Mod(x, fieldQ)
		sig, err := w.ks.SignElem(w.pks[k], in)
		c.check(err == nil, "sign.make", "%v", err)
		ok, _ := keystore.VerifySignatureElem(w.pks[k], x, sig)
		c.check(!ok, "sign.outside", "a signature of %v is accepted for %v", in, x)
	case "away":
		r.away(c, num(st["k"])-1, num(st["m"]), str(st["how"]))
	case "trip":
		r.trip(c, r.sigs[num(st["i"])-1], num(st["n"]))
	default:
		internal("unknown step %v", st)
	}
}

// alter changes a signature or makes the key malformed.
func (r *signReplay) alter(x int, s *oneSig, pk *babyjub.PublicKeyComp, addr *ethcommon.Address) string {
	h := r.c.step*131 + r.c.beh*17
	if s.kind == "eth" || s.kind == "ethdate" {
		n := ethcrypto.S256().Params().N
		set := func(off int, v *big.Int) {
			b := make([]byte, 32)
			vb := v.Bytes()
			if len(vb) > 32 {
				vb = vb[len(vb)-32:]
			}
			copy(b[32-len(vb):], vb)
			copy(s.eth[off:], b)
		}
		sv := new(big.Int).SetBytes(s.eth[32:64])
		switch x % 10 {
		case 0, 1:
			s.eth[h%65] ^= 1 << uint(h%8)
			return "one bit"
		case 2: // the other solution of the same equation
			set(32, new(big.Int).Sub(n, sv))
			s.eth[64] ^= 7 // 27 <-> 28
			return "s replaced by n-s, v flipped"
		case 3:
			s.eth[64] ^= 7
			return "v flipped"
		case 4:
			s.eth[64] = byte(h)
			if s.eth[64] == 27 || s.eth[64] == 28 {
				s.eth[64] = 26
			}
			return "another v"
		case 5:
			set(32, new(big.Int).Add(sv, n))
			return "s+n"
		case 6:
			set(0, big.NewInt(0))
			return "r = 0"
		case 7:
			set(32, big.NewInt(0))
			return "s = 0"
		case 8:
			s.eth = crypto.SignatureEthMsg{}
			return "empty"
		default:
			addr[h%20] ^= 1 << uint(h%8)
			return "one bit of the address"
		}
	}
	set := func(v *big.Int) bool {
		if v.BitLen() > 256 {
			return false
		}
		var b [32]byte
		x := bigToH(v)
		copy(b[:], x[:])
		copy(s.comp[32:], b[:])
		return true
	}
	var sb H
	copy(sb[:], s.comp[32:])
	sv := hToBig(sb)
	switch x {
	case 1, 2, 3:
		s.comp[h%64] ^= 1 << uint(h%8)
		return "one bit"
	case 4:
		k := big.NewInt(int64(1 + h%5))
		if !set(new(big.Int).Add(sv, k.Mul(k, babyjub.SubOrder))) {
			return ""
		}
		return "S plus a multiple of the order"
	case 5:
		set(new(big.Int).Sub(babyjub.SubOrder, sv))
		return "S negated"
	case 6:
		s.comp[31] ^= 0x80
		return "R8 negated"
	case 7:
		s.comp[31] ^= 0x80
		set(new(big.Int).Sub(babyjub.SubOrder, sv))
		return "both negated"
	case 8:
		for i := range s.comp {
			s.comp[i] = 0xff
		}
		return "all ones"
	case 9:
		s.comp = babyjub.SignatureComp{}
		return "empty"
	case 10: // the identity as R8
		copy(s.comp[:32], append([]byte{1}, make([]byte, 31)...))
		return "R8 the identity"
	case 11:
		set(big.NewInt(0))
		return "S = 0"
	case 12:
		if !set(new(big.Int).Add(sv, fieldQ)) {
			return ""
		}
		return "S plus the field order"
	case 13:
		pk[31] ^= 0x80
		return "the negated key"
	case 14:
		*pk = babyjub.PublicKeyComp{1}
		return "the identity as key"
	case 15:
		for i := range pk {
			pk[i] = 0xff
		}
		return "malformed key"
	case 16:
		*pk = babyjub.PublicKeyComp{}
		return "empty key"
	case 17: // y beyond the field
		v := new(big.Int)
		var y H
		copy(y[:], pk[:])
		y[31] &= 0x7f
		v.Add(hToBig(y), fieldQ)
		if v.BitLen() > 255 {
			return ""
		}
		z := bigToH(v)
		copy(pk[:], z[:])
		return "key with y beyond the field"
	case 18: // another point of the curve
		pk[h%32] ^= 1 << uint(h%8)
		return "one bit of the key"
	case 19: // R8 of another signature
		o := r.sigs[h%len(r.sigs)]
		if bytes.Equal(o.comp[:32], s.comp[:32]) || o.comp == (babyjub.SignatureComp{}) {
			return ""
		}
		copy(s.comp[:32], o.comp[:32])
		return "R8 of another signature"
	default:
		a, b := append([]byte{}, s.comp[:32]...), append([]byte{}, s.comp[32:]...)
		copy(s.comp[:32], b)
		copy(s.comp[32:], a)
		return "halves exchanged"
	}
}

// trip writes and reads back encodings.
func (r *signReplay) trip(c *Ctx, s oneSig, n int) {
	w := r.w
	enc := func(v interface{}) []byte {
		b, err := json.Marshal(v)
		c.check(err == nil, "sign.json", "%T: %v", v, err)
		return b
	}
	// bad encodings of the same length class are errors
	bad := func(b []byte, into func() interface{}) {
		for _, alt := range [][]byte{b[:len(b)-1], append(append([]byte{}, b[:len(b)-3]...), '"'), append(append([]byte{}, b[:len(b)-1]...), 'a', 'b', '"'),
			append(append([]byte{}, b[:len(b)-2]...), 'x', '"'), []byte(`""`), []byte("null1"), []byte("7"), []byte("[]"), []byte(`"0x"`)} {
			c.check(json.Unmarshal(alt, into()) != nil, "sign.json", "%T reads %s", into(), alt)
		}
	}
	switch n {
	case 1, 2:
		if s.kind == "eth" || s.kind == "ethdate" {
			b := enc(s.eth)
			var y crypto.SignatureEthMsg
			c.check(json.Unmarshal(b, &y) == nil && y == s.eth, "sign.json", "ethereum message signature %s", b)
			bad(b, func() interface{} { return new(crypto.SignatureEthMsg) })
			z := crypto.Signature(s.eth)
			b = enc(z)
			var q crypto.Signature
			c.check(json.Unmarshal(b, &q) == nil && q == z, "sign.json", "ethereum signature %s", b)
			bad(b, func() interface{} { return new(crypto.Signature) })
			return
		}
		b := enc(s.comp)
		var y babyjub.SignatureComp
		c.check(json.Unmarshal(b, &y) == nil && y == s.comp, "sign.json", "signature %s", b)
		bad(b, func() interface{} { return new(babyjub.SignatureComp) })
		d, err := s.comp.Decompress()
		c.check(err == nil, "sign.json", "%v", err)
		c.check(d.Compress() == s.comp, "sign.json", "decompressed and compressed %x", s.comp)
	case 3, 4:
		pk := w.pks[s.key-1]
		b := enc(pk)
		var y babyjub.PublicKeyComp
		c.check(json.Unmarshal(b, &y) == nil && y == *pk, "sign.json", "public key %s", b)
		bad(b, func() interface{} { return new(babyjub.PublicKeyComp) })
		d, err := pk.Decompress()
		c.check(err == nil && d.Compress() == *pk, "sign.json", "public key %x: %v", *pk, err)
		b = enc(d)
		var e babyjub.PublicKey
		c.check(json.Unmarshal(b, &e) == nil && e.Compress() == *pk, "sign.json", "public key %s", b)
		c.check(w.idss[s.key-1].PublicKey().Compress() == *pk, "sign.json", "public key of the signer")
	case 5, 6:
		k := w.epk[s.key-1]
		pk, err := crypto.GetPkFromKeyStore(w.eks, w.accs[s.key-1].Address)
		c.check(err == nil && pk.X.Cmp(k.X) == 0 && pk.Y.Cmp(k.Y) == 0, "sign.ethpk", "the key of %x: %v", w.accs[s.key-1].Address, err)
		_, err = crypto.GetPkFromKeyStore(w.eks, ethcommon.Address{1})
		c.check(err != nil, "sign.ethpk", "a key for an unknown address")
		b := enc(crypto.PublicKey{PublicKey: *pk})
		var y crypto.PublicKey
		c.check(json.Unmarshal(b, &y) == nil && y.X.Cmp(k.X) == 0 && y.Y.Cmp(k.Y) == 0, "sign.json", "ethereum public key %s", b)
		bad(b, func() interface{} { return new(crypto.PublicKey) })
		c.check(json.Unmarshal([]byte(`"0x`+fmt.Sprintf("%066x", 7)+`"`), &y) != nil, "sign.json", "no point accepted as a public key")
	case 7: // a hash signed as it is
		h := crypto.HashBytes(signMsg(s.msg))
		b, err := crypto.Sign(h, w.eks, w.accs[s.key-1])
		c.check(err == nil, "sign.make", "%v", err)
		var sig crypto.Signature
		copy(sig[:], b)
		c.check(crypto.VerifySig(w.accs[s.key-1].Address, &sig, h[:]), "sign.accept", "the signature of a hash is refused")
		h2 := crypto.HashBytes(signMsg(s.msg), []byte{0})
		c.check(!crypto.VerifySig(w.accs[s.key-1].Address, &sig, h2[:]), "sign.reject", "accepted for another hash")
		c.check(!crypto.VerifySig(w.accs[s.key%signKeys].Address, &sig, h[:]), "sign.reject", "accepted for another address")
		c.check(!crypto.VerifySig(w.accs[s.key-1].Address, &sig, h[:31]), "sign.reject", "accepted for a short hash")
		c.check(!crypto.VerifySig(w.accs[s.key-1].Address, &sig, nil), "sign.reject", "accepted for no hash")
	default: // keys that are not there cannot sign
		pk := *w.pks[s.key-1]
		pk[0] ^= 1
		_, err := w.ks.SignRaw(&pk, []byte("x"))
		c.check(err == keystore.ErrKeyNotInCache, "sign.make", "signing with an absent key: %v", err)
		_, err = crypto.SignEthMsg(w.eks, accounts.Account{Address: ethcommon.Address{9}}, []byte("x"))
		c.check(err != nil, "sign.make", "signing with an absent account")
	}
}
