package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"time"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/holder"
	mt "github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
)

// Credentials: validity, verification, recombination, damage, zero knowledge.

func (r *identityReplay) decodeE(c *Ctx, k int) *proof.CredentialExistence {
	var e proof.CredentialExistence
	err := json.Unmarshal(r.creds[k-1], &e)
	c.check(err == nil, "id.credjson", "credential does not decode: %v", err)
	e.Claim = &mt.Entry{Data: e.Claim.Data}
	return &e
}
func (r *identityReplay) decodeV(c *Ctx, k int) *proof.CredentialValidity {
	var v proof.CredentialValidity
	err := json.Unmarshal(r.vals[k-1], &v)
	c.check(err == nil, "id.credjson", "credential does not decode: %v", err)
	v.CredentialExistence.Claim = &mt.Entry{Data: v.CredentialExistence.Claim.Data}
	return &v
}

func halves(n int) time.Duration { return time.Duration(n) * 500 * time.Millisecond }

func mixE(a, b *proof.CredentialExistence, who map[string]bool) {
	if who["id"] {
		a.Id = b.Id
	}
	if who["state"] {
		a.IdenStateData.IdenState = b.IdenStateData.IdenState
	}
	if who["block"] {
		a.IdenStateData.BlockN = b.IdenStateData.BlockN
	}
	if who["ts"] {
		a.IdenStateData.BlockTs = b.IdenStateData.BlockTs
	}
	if who["mtp"] {
		a.MtpClaim = b.MtpClaim
	}
	if who["claim"] {
		a.Claim = b.Claim
	}
	if who["rev"] {
		a.RevocationsTreeRoot = b.RevocationsTreeRoot
	}
	if who["roots"] {
		a.RootsTreeRoot = b.RootsTreeRoot
	}
}

func mixV(a, b *proof.CredentialValidity, who map[string]bool) {
	mixE(&a.CredentialExistence, &b.CredentialExistence, who)
	if who["state2"] {
		a.IdenStateData.IdenState = b.IdenStateData.IdenState
	}
	if who["block2"] {
		a.IdenStateData.BlockN = b.IdenStateData.BlockN
	}
	if who["ts2"] {
		a.IdenStateData.BlockTs = b.IdenStateData.BlockTs
	}
	if who["mtpn"] {
		a.MtpNotNonce = b.MtpNotNonce
	}
	if who["clr2"] {
		a.ClaimsTreeRoot = b.ClaimsTreeRoot
	}
	if who["roots2"] {
		a.RootsTreeRoot = b.RootsTreeRoot
	}
}

func flipHash(h *mt.Hash, n int) *mt.Hash {
	x := *h
	x[(n/8)%32] ^= 1 << uint(n%8)
	return &x
}

// hurtProof damages a proof; the result is never the proof itself.
func (r *identityReplay) hurtProof(p *mt.Proof, how string, n int) *mt.Proof {
	q := r.hurtProof1(p, how, n)
	if q != nil && reflect.DeepEqual(p, q) {
		return &mt.Proof{Existence: !p.Existence}
	}
	return q
}

func (r *identityReplay) hurtProof1(p *mt.Proof, how string, n int) *mt.Proof {
	switch how {
	case "nil":
		return nil
	case "zero":
		return &mt.Proof{}
	}
	b := p.Bytes()
	depth := int(b[1])
	// alter the siblings, the depth, the kind of proof or the neighbour leaf
	switch n % 7 {
	case 0:
		q, err := mt.NewProofFromBytes(b)
		must(err)
		q.Existence = !q.Existence
		return q
	case 6: // siblings missing
		q, err := mt.NewProofFromBytes(b)
		must(err)
		if l := len(q.Siblings); l > 0 {
			if n%2 == 0 {
				q.Siblings[n%l] = nil
			} else {
				q.Siblings = q.Siblings[:n%l]
			}
		}
		return q
	case 1:
		b[0] ^= 1
	case 2:
		if depth < 200 {
			b[1]++
		}
	case 3:
		if len(b) > 32 {
			b[32+(n/6)%(len(b)-32)] ^= 1 << uint(n%8)
		} else {
			b[1]++
		}
	case 4:
		if depth > 0 {
			b[1]--
		} else {
			b[1] = 40
		}
	case 5: // a neighbour leaf that is not there, or none
		q, err := mt.NewProofFromBytes(b)
		must(err)
		if q.NodeAux == nil {
			h := mt.Hash(refPoseidon(H{byte(n)}, H{3}))
			q.NodeAux = &mt.NodeAux{HIndex: &h, HValue: &h}
			q.Existence = false
		} else {
			switch n % 4 {
			case 0:
				q.NodeAux = nil
			case 1:
				q.NodeAux = &mt.NodeAux{HIndex: q.NodeAux.HIndex}
			case 2:
				q.NodeAux = &mt.NodeAux{HIndex: q.NodeAux.HIndex, HValue: flipHash(q.NodeAux.HValue, n)}
			case 3:
				q.NodeAux = &mt.NodeAux{HIndex: flipHash(q.NodeAux.HIndex, n), HValue: q.NodeAux.HValue}
			}
		}
		return q
	}
	q, err := mt.NewProofFromBytes(b)
	if err != nil {
		return &mt.Proof{}
	}
	return q
}

func (r *identityReplay) hurtHash(h *mt.Hash, how string, n int) *mt.Hash {
	switch {
	case how == "nil":
		return nil
	case how == "zero" && *h != mt.HashZero:
		return &mt.Hash{}
	case n%5 == 0: // not an element of the field
		var x mt.Hash
		for i := range x {
			x[i] = 0xff
		}
		return &x
	case n%5 == 1: // the same value modulo the field
		return h2m(wrapField(m2h(h)))
	}
	return flipHash(h, n)
}

// wrapField adds the order of the field, if it still fits in 32 bytes.
func wrapField(h H) H {
	x := hToBig(h)
	x.Add(x, fieldR)
	return bigToH(x)
}

func (r *identityReplay) hurtE(e *proof.CredentialExistence, part, how string, n int) {
	switch part {
	case "id":
		if how == "nil" {
			e.Id = nil
		} else if how == "zero" {
			e.Id = &core.ID{}
		} else {
			id := *e.Id
			id[(n/8)%31] ^= 1 << uint(n%8)
			e.Id = &id
		}
	case "state":
		e.IdenStateData.IdenState = r.hurtHash(e.IdenStateData.IdenState, how, n)
	case "block":
		e.IdenStateData.BlockN += uint64(1 + n)
	case "ts":
		e.IdenStateData.BlockTs -= int64(1 + n)
	case "mtp":
		e.MtpClaim = r.hurtProof(e.MtpClaim, how, n)
	case "claim":
		switch how {
		case "nil":
			e.Claim = nil
		case "zero":
			e.Claim = &mt.Entry{}
		default:
			d := e.Claim.Data
			d[n%8][(n/8)%32] ^= 1 << uint(n%7)
			if n%9 == 0 {
				d[n%8] = mt.ElemBytes(wrapField(H(e.Claim.Data[n%8])))
			}
			e.Claim = &mt.Entry{Data: d}
		}
	case "rev":
		e.RevocationsTreeRoot = r.hurtHash(e.RevocationsTreeRoot, how, n)
	case "roots":
		e.RootsTreeRoot = r.hurtHash(e.RootsTreeRoot, how, n)
	}
}

// refusals asks for the validity of credentials that lack a part, and while the
// chain does not answer.
func (r *identityReplay) refusals(c *Ctx, ex *proof.CredentialExistence) {
	ask := func(what string, ex *proof.CredentialExistence) {
		guard(c, "id.val", func() {
			v, err := r.w.holder.HolderGetCredentialValidity(ex)
			c.check(err != nil && v == nil, "id.val", "credential of validity %s", what)
		})
		guard(c, "id.val", func() {
			v, err := r.w.holder.HolderGetCredentialValidityData(ex)
			c.check(err != nil && v == nil, "id.val", "validity data %s", what)
		})
	}
	a, b, d := *ex, *ex, *ex
	a.Id, b.Claim, d.MtpClaim = nil, nil, nil
	ask("for nobody", &a)
	ask("for no claim", &b)
	ask("without the proof of the claim", &d)
	ask("of nothing", &proof.CredentialExistence{})
	r.ch.fault = "getstate"
	_, err := r.w.holder.HolderGetCredentialValidity(ex)
	c.check(err == errChain && r.ch.fault == "", "id.val", "the chain did not answer: %v", err)
	r.ch.fault, r.ch.fired = "", false
	c.bump("refusals")
}

func (r *identityReplay) credStep(c *Ctx, op string, s M) {
	if t, ok := s["now"]; ok {
		r.now = num(t)
	}
	ret := str(s["ret"])
	switch op {
	case "val":
		ex := r.decodeE(c, num(s["k"]))
		o := r.ids[num(s["i"])]
		if s["mism"].(bool) {
			h := o.triple(s["other"], ext{}).st
			r.w.reader.sub = &h
		}
		if c.step%4 == 0 {
			r.refusals(c, ex)
		}
		v, err := r.w.holder.HolderGetCredentialValidity(ex)
		r.w.reader.sub = nil
		switch ret {
		case "ok":
			c.check(err == nil && v != nil, "id.val", "credential of validity refused: %v", err)
			r.checkVal(c, o, s, ex, v)
			b, err := json.Marshal(v)
			c.check(err == nil, "id.credjson", "credential cannot be encoded: %v", err)
			r.vals = append(r.vals, b)
		case "revoked":
			c.check(err == holder.ErrRevokedClaim, "id.val", "credential of validity for a revoked claim: %v", err)
		case "mismatch":
			c.check(err == holder.ErrCalculatedIdenStateDoesntMatch, "id.val", "credential of validity from public data of another state: %v", err)
		case "nopub":
			c.check(err != nil, "id.val", "credential of validity without public data")
		}
		c.check(ret == "ok" || v == nil, "id.val", "a refused credential was given")
	case "verE":
		err := r.verifier().VerifyCredentialExistence(r.decodeE(c, num(s["k"])))
		c.check(err == nil, "id.verify", "a credential of existence is no longer accepted: %v", err)
	case "verV":
		err := r.verifier().VerifyCredentialValidity(r.decodeV(c, num(s["k"])), halves(num(s["fresh"])))
		switch ret {
		case "ok":
			c.check(err == nil, "id.verify", "a credential of validity is not accepted: %v", err)
		case "expired":
			c.check(err != nil, "id.expired", "an expired claim was accepted")
		case "stale":
			c.check(err != nil, "id.stale", "an outdated credential of validity was accepted")
		}
		c.bump("verV_" + ret)
	case "mixE", "mixV":
		if r.renumb {
			c.bump("mix_skipped")
			return
		}
		who := map[string]bool{}
		for _, x := range arr(s["who"]) {
			who[str(x)] = true
		}
		var err error
		if op == "mixE" {
			a, b := r.decodeE(c, num(s["a"])), r.decodeE(c, num(s["b"]))
			mixE(a, b, who)
			err = r.verifier().VerifyCredentialExistence(a)
		} else {
			a, b := r.decodeV(c, num(s["a"])), r.decodeV(c, num(s["b"]))
			mixV(a, b, who)
			err = r.verifier().VerifyCredentialValidity(a, halves(num(s["fresh"])))
		}
		c.check(err != nil || s["fact"].(bool), "id.mix", "parts of two credentials (%v from the second) were accepted though they state no fact", s["who"])
		if err == nil {
			c.bump(op + "_accepted")
		} else {
			c.bump(op + "_rejected")
		}
	case "hurt":
		k, part, how, n := num(s["k"]), str(s["part"]), str(s["how"]), num(s["n"])
		var err error
		if !s["v"].(bool) {
			e := r.decodeE(c, k)
			r.hurtE(e, part, how, n)
			err = r.verifier().VerifyCredentialExistence(e)
		} else {
			v := r.decodeV(c, k)
			switch part {
			case "state2":
				v.IdenStateData.IdenState = r.hurtHash(v.IdenStateData.IdenState, how, n)
			case "block2":
				v.IdenStateData.BlockN += uint64(1 + n)
			case "ts2":
				v.IdenStateData.BlockTs += int64(1 + n)
			case "mtpn":
				v.MtpNotNonce = r.hurtProof(v.MtpNotNonce, how, n)
			case "clr2":
				v.ClaimsTreeRoot = r.hurtHash(v.ClaimsTreeRoot, how, n)
			case "roots2":
				v.RootsTreeRoot = r.hurtHash(v.RootsTreeRoot, how, n)
			default:
				r.hurtE(&v.CredentialExistence, part, how, n)
			}
			err = r.verifier().VerifyCredentialValidity(v, halves(100000))
		}
		c.check(err != nil, "id.hurt", "a credential with damaged %s (%s %d) was accepted", part, how, n)
		c.bump("hurt_" + part)
	case "zk":
		r.zk(c, s)
	case "zkver":
		r.zkver(c, s)
	}
}

// checkVal compares a credential of validity with the specified state.
func (r *identityReplay) checkVal(c *Ctx, o *oneIden, s M, ex *proof.CredentialExistence, v *proof.CredentialValidity) {
	to := obj(s["to"])
	t := o.triple(to["st"], ext{})
	c.check(sameData(&v.IdenStateData, o.data(to, ext{})), "id.valparts", "validity under %+v, specified %v", v.IdenStateData, to)
	c.check(m2h(v.ClaimsTreeRoot) == t.clr && m2h(v.RootsTreeRoot) == t.ror, "id.valparts", "other roots than those of the state on chain")
	var nonce uint32
	for _, e := range o.cl {
		if e.c == num(obj(s["e"])["c"]) {
			nonce = e.nonce
		}
	}
	l := revLeaf(nonce)
	root, err := mt.RootFromProof(v.MtpNotNonce, h2m(l[0]), h2m(l[1]))
	c.check(err == nil && !v.MtpNotNonce.Existence && m2h(root) == t.rer, "id.valparts", "the proof of non revocation does not lead to the revocations root on chain (%v)", err)
	a, e1 := json.Marshal(&v.CredentialExistence)
	b, e2 := json.Marshal(ex)
	c.check(e1 == nil && e2 == nil && string(a) == string(b), "id.valparts", "the credential of existence inside changed")
}

func (r *identityReplay) zk(c *Ctx, s M) {
	ret := str(s["ret"])
	lv := num(s["levels"])
	ex := r.decodeE(c, num(s["k"]))
	o := r.ids[num(s["i"])]
	credLevels = [2]int{3, lv}
	credInputs = nil
	data := ex.Claim.Data
	out, err := r.w.holder.HolderGenZkProofCredential(ex, func(in map[string]interface{}) error {
		if _, ok := in["claim"]; ok {
			return fmt.Errorf("the claim is given to the circuit twice")
		}
		cl := make([]*big.Int, 8)
		for i := range cl {
			cl[i] = hToBig(H(data[i]))
		}
		in["claim"] = cl
		return nil
	}, 3, lv, r.w.cred)
	if ret != "ok" {
		c.check(err != nil && out == nil, "id.zk", "a proof was made for a claim that is %s", ret)
		return
	}
	to := obj(s["to"])
	t := o.triple(to["st"], ext{})
	ont := o.triple(obj(s["on"])["st"], ext{})
	if o.zkDepth(obj(s["on"])["st"], to["st"], data) > lv {
		c.check(err != nil && out == nil, "id.zk", "a proof was made that does not fit in %d levels", lv)
		c.bump("zk_refused")
		r.zks = append(r.zks, zkRec{i: o.n})
		return
	}
	c.check(err == nil, "id.zk", "no proof for a valid claim: %v", err)
	c.check(credInputs != nil, "id.zk", "the circuit was not used")
	is := func(k string, h H) {
		c.check(credInputs[k].Cmp(hToBig(h)) == 0, "id.zkinput", "input %s of the circuit is not the specified one", k)
	}
	is("isIdenState", t.st)
	is("isProofExistClaimsTreeRoot", ont.clr)
	is("isProofValidClaimsTreeRoot", t.clr)
	is("isProofValidRevTreeRoot", t.rer)
	is("isProofValidRootsTreeRoot", t.ror)
	is("hoClaimKOpClaimsTreeRoot", r.w.hClr)
	c.check(*out.IssuerID == o.id && out.IdenStateBlockN == uint64(num(to["blk"]))*r.ch.scale, "id.zk", "proof about issuer %v at block %d, specified block %v", out.IssuerID, out.IdenStateBlockN, to["blk"])
	b, err := json.Marshal(&out.ZkProofOut.Proof)
	c.check(err == nil, "id.credjson", "proof cannot be encoded: %v", err)
	r.zks = append(r.zks, zkRec{i: o.n, out: out, b: b})
}

// pathDepth is the number of siblings on the path of hi among the leaves ls.
func pathDepth(ls [][2]H, hi H) int {
	for d := 0; ; d++ {
		var same [][2]H
		for _, l := range ls {
			ok := true
			for b := 0; b < d; b++ {
				ok = ok && refBit(l[0], b) == refBit(hi, b)
			}
			if ok {
				same = append(same, l)
			}
		}
		if len(same) < 2 {
			return d
		}
	}
}

// zkDepth is the number of levels that a credential proof needs: of the claim
// in the state st, of its nonce and of the claims root of st in the state to.
func (o *oneIden) zkDepth(st, to interface{}, data mt.Data) int {
	a, b := arr(st), arr(to)
	max := pathDepth(leaves(o.cl[:num(a[0])]), refEntryMemo(data)[0])
	var rv, rt [][2]H
	for _, n := range o.rv[:num(b[1])] {
		rv = append(rv, revLeaf(n))
	}
	for _, h := range o.rt[:num(b[2])] {
		rt = append(rt, rootsLeaf(h))
	}
	nonce := claims.GetRevocationNonce(&mt.Entry{Data: data})
	if d := pathDepth(rv, revLeaf(nonce)[0]); d > max {
		max = d
	}
	if d := pathDepth(rt, rootsLeaf(o.clr(num(a[0]), ext{}))[0]); d > max {
		max = d
	}
	return max
}

func (r *identityReplay) zkver(c *Ctx, s M) {
	z := r.zks[num(s["k"])-1]
	if z.out == nil {
		return
	}
	var p zktypes.Proof
	must(json.Unmarshal(z.b, &p))
	sig := append([]*big.Int{}, z.out.ZkProofOut.PubSignals...)
	id := z.out.IssuerID
	blk := z.out.IdenStateBlockN
	files := r.w.cred
	switch how := str(s["how"]); how {
	case "issuer":
		x := *id
		for _, o := range r.ids {
			if o.made && o.id != *id {
				x = o.id
			}
		}
		if x == *id {
			x[3] ^= 1
		}
		id = &x
	case "block":
		// another block, preferably one at which the issuer has a state
		blk++
		for _, d := range r.ch.recs[*id] {
			if d.BlockN != z.out.IdenStateBlockN {
				blk = d.BlockN
			}
		}
	case "signal":
		sig[0] = new(big.Int).Add(sig[0], big.NewInt(1))
	case "proof":
		p.B.Add(p.B, p.B)
	case "othervk":
		files = r.w.state
	case "longer":
		sig = append(sig, big.NewInt(0))
	case "shorter":
		sig = nil
	}
	err := r.verifier().VerifyZkProofCredential(&p, sig, id, blk, files, halves(num(s["fresh"])))
	switch ret := str(s["ret"]); ret {
	case "ok":
		c.check(err == nil, "id.zkverify", "a proof is not accepted: %v", err)
	case "stale":
		c.check(err != nil, "id.zkverify", "a proof about an outdated state was accepted")
	case "no":
		c.check(err != nil, "id.zkverify", "a proof was accepted with another %s", str(s["how"]))
	}
	c.bump("zkver_" + str(s["ret"]))
}

var _ = verifier.New
var _ = zkutils.NewZkFiles
