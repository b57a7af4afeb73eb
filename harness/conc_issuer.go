package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"sync"

	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	offlocal "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	mt "github.com/iden3/go-iden3-core/merkletree"
)

// Histories of several goroutines using one issuer (spec/IssuerLin.tla).

// concChain is a chain whose operations are atomic.
type concChain struct {
	mu sync.Mutex
	s  *sched
	f  *fakeChain
	// submitted states
	subs []H
	old  map[core.ID]H
	odd  string
}

func (x *concChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	x.s.yield()
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.f.GetState(id)
}
func (x *concChain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.f.GetStateByBlock(id, n)
}
func (x *concChain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.f.GetStateByTime(id, ts)
}
func (x *concChain) InitState(id *core.ID, gen, new *mt.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	x.s.yield()
	x.mu.Lock()
	tx, err := x.f.InitState(id, gen, new, p)
	x.subs = append(x.subs, m2h(new))
	x.mu.Unlock()
	x.s.yield()
	return tx, err
}
func (x *concChain) SetState(id *core.ID, new *mt.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	x.s.yield()
	x.mu.Lock()
	tx, err := x.f.SetState(id, new, p)
	x.subs = append(x.subs, m2h(new))
	x.mu.Unlock()
	x.s.yield()
	return tx, err
}
func (x *concChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	x.s.yield()
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.f.TxConfirmBlocks(tx)
}

// mine includes the transaction that is waiting, as the contract would.
func (x *concChain) mine(id core.ID, gen H, good bool) (H, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	f := x.f
	f.blk++
	for _, t := range f.txs {
		if t.blk != 0 {
			continue
		}
		t.blk = f.blk
		l := f.recs[id]
		cur := gen
		if len(l) > 0 {
			cur = m2h(l[len(l)-1].IdenState)
		}
		valid := t.id == id && t.init == (len(l) == 0) && (!t.init || t.old == gen) && t.proves(cur)
		if !valid {
			x.odd = fmt.Sprintf("the contract would refuse the transaction to %v (init %v)", hx(t.new), t.init)
		}
		t.ok = valid && good
		if t.ok {
			f.recs[id] = append(l, proof.IdenStateData{BlockN: f.blk, BlockTs: baseTime + int64(f.blk), IdenState: h2m(t.new)})
		}
		return t.new, true
	}
	return H{}, false
}

// concWriter records the roots of every published state.
type concWriter struct {
	idenpuboffchain.IdenPubOffChainWriter
	s     *sched
	mu    sync.Mutex
	roots map[H][3]H
	odd   string
}

func (o *concWriter) Publish(id *core.ID, p *idenpuboffchain.PublicData) error {
	o.s.yield()
	r := [3]H{m2h(p.ClaimsTreeRoot), m2h(p.RevocationsTreeRoot), m2h(p.RootsTreeRoot)}
	err := o.IdenPubOffChainWriter.Publish(id, p)
	o.mu.Lock()
	o.roots[m2h(p.IdenState)] = r
	o.mu.Unlock()
	o.s.yield()
	return err
}

type concIssuer struct {
	cls, rvs, rts db.Storage
	back          map[mt.ElemBytes]int // content by what tells its index apart
	w             *concWriter
	byClr         map[H]interface{}
	kop           mt.Data
}

// index identifies the index of an entry.
func indexOf(d mt.Data) mt.ElemBytes {
	h := refPoseidon(H(d[0]), H(d[1]), H(d[2]), H(d[3]))
	return mt.ElemBytes(h)
}

// claimsSet is a claims tree as pairs of content and revocation nonce.
func (t *concIssuer) claimsSet(root H) (interface{}, bool) {
	if x, ok := t.byClr[root]; ok {
		return x, x != nil
	}
	t.byClr[root] = nil
	ds, ok := setOf(t.cls, root, 64)
	if !ok {
		return nil, false
	}
	out := [][2]int{}
	for _, d := range ds {
		n := int(claims.GetRevocationNonce(&mt.Entry{Data: d}))
		if d == t.kop {
			out = append(out, [2]int{0, n})
			continue
		}
		c, ok := t.back[indexOf(d)]
		if !ok {
			return nil, false
		}
		// everything but the nonce is what was issued
		want := idContent(c, 0)
		want.Metadata().RevNonce = uint32(n)
		if want.Entry().Data != d {
			return nil, false
		}
		out = append(out, [2]int{c, n})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	t.byClr[root] = out
	return out, true
}

func (t *concIssuer) state(clr, rer, ror H) M {
	bad := M{"ok": false, "zero": false, "cl": []int{}, "rev": []int{}, "rts": []int{}}
	cl, ok := t.claimsSet(clr)
	if !ok {
		bad["why"] = "claims tree root"
		return bad
	}
	rd, ok := setOf(t.rvs, rer, 64)
	if !ok {
		bad["why"] = "revocations tree root"
		return bad
	}
	rev := []int{}
	for _, d := range rd {
		n := int(d[0][0]) | int(d[0][1])<<8 | int(d[0][2])<<16 | int(d[0][3])<<24
		if refEntryMemo(d) != revLeaf(uint32(n)) {
			bad["why"] = "revocation leaf"
			return bad
		}
		rev = append(rev, n)
	}
	sort.Ints(rev)
	od, ok := setOf(t.rts, ror, 64)
	if !ok {
		bad["why"] = "roots tree root"
		return bad
	}
	rts := []interface{}{}
	for _, d := range od {
		r := H(d[0])
		x, ok := t.claimsSet(r)
		if !ok || refEntryMemo(d) != rootsLeaf(r) {
			bad["why"] = "leaf of the roots tree"
			return bad
		}
		rts = append(rts, x)
	}
	return M{"ok": true, "zero": false, "cl": cl, "rev": rev, "rts": rts}
}

// byHash finds what a state hash stands for, among the published ones.
func (t *concIssuer) byHash(h H) M {
	if h == (H{}) {
		return M{"ok": true, "zero": true, "cl": []int{}, "rev": []int{}, "rts": []int{}}
	}
	t.w.mu.Lock()
	r, ok := t.w.roots[h]
	t.w.mu.Unlock()
	if !ok || refPoseidon(r[0], r[1], r[2]) != h {
		return M{"ok": false, "zero": false, "cl": []int{}, "rev": []int{}, "rts": []int{}, "why": "unknown state " + hx(h)}
	}
	return t.state(r[0], r[1], r[2])
}

func concIssuerHistory(r *concRun, n int, rnd *rand.Rand) M {
	c := r.c
	w := getWorld(c)
	s := r.sched(rnd)
	h := &concHist{s: s}
	raw, _, clean := c.newStorage("i")
	defer clean()
	defer raw.Close()
	base := raw.WithPrefix([]byte("id:"))
	confirm := rnd.Intn(3)
	cfg := issuer.ConfigDefault
	cfg.ConfirmBlocks = uint64(confirm)
	gs := &gateStorage{base, s}
	kop := w.keys[0]
	s2 := s.gated
	s.gated = false
	id, err := issuer.Create(cfg, kop, nil, gs, w.ks)
	must(err)
	ch := &concChain{s: s, f: &fakeChain{w: w, blk: 1, recs: map[core.ID][]proof.IdenStateData{}}}
	pub := &concWriter{IdenPubOffChainWriter: offlocal.NewIdenPubOffChain("http://here"), s: s, roots: map[H][3]H{}}
	conf := &issuer.IdenStateZkProofConf{Levels: levelsState, Files: *w.state}
	is, err := issuer.Load(gs, w.ks, ch, conf, pub)
	must(err)
	pk, err := kop.Decompress()
	must(err)
	t := &concIssuer{cls: base.WithPrefix([]byte("treeclaims:")), rvs: base.WithPrefix([]byte("treerevocation:")), rts: base.WithPrefix([]byte("treeroots:")),
		back: map[mt.ElemBytes]int{}, w: pub, byClr: map[H]interface{}{}}
	const contents = 6
	for k := 1; k <= contents; k++ {
		t.back[indexOf(idContent(k, 0).Entry().Data)] = k
	}
	genState, genRoots := is.State()
	// the key's own claim is the only one at genesis
	ds, ok := setOf(t.cls, m2h(genRoots.ClaimsTreeRoot), 4)
	if !ok || len(ds) != 1 {
		c.check(false, "lin.genesis", "the claims tree of a new identity has %d entries", len(ds))
	}
	t.kop = ds[0]
	want := claims.NewClaimKeyBabyJub(pk, claims.BabyJubKeyTypeAuthorizeKSign)
	want.Metadata().RevNonce = claims.GetRevocationNonce(&mt.Entry{Data: ds[0]})
	c.check(want.Entry().Data == ds[0], "lin.genesis", "the claim of a new identity is not its key")
	genesis := t.state(m2h(genRoots.ClaimsTreeRoot), m2h(genRoots.RevocationsTreeRoot), m2h(genRoots.RootsTreeRoot))
	s.gated = s2

	var tabMu sync.Mutex
	objs := map[int]claims.Claimer{} // what has been issued, as far as is known
	nonceKnown := func(k int) (claims.Claimer, int) {
		cl := idContent(k, 0)
		tabMu.Lock()
		defer tabMu.Unlock()
		if o, ok := objs[k]; ok {
			cl.Metadata().RevNonce = o.Metadata().RevNonce
			return cl, int(o.Metadata().RevNonce)
		}
		cl.Metadata().RevNonce = 987654
		return cl, 987654
	}
	nw := 3 + rnd.Intn(3)
	perW := 4 + rnd.Intn(3)
	if r.mode == "free" {
		nw, perW = 5+rnd.Intn(3), 6
	}
	var ws []func()
	for wn := 0; wn < nw; wn++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		chainOnly := wn == 0
		ws = append(ws, func() {
			for i := 0; i < perW; i++ {
				k := 1 + wr.Intn(contents)
				x := wr.Intn(24)
				if chainOnly && x < 14 {
					x = 20 + wr.Intn(4)
				}
				switch {
				case x < 6:
					cl := idContent(k, 0)
					h.do(M{"op": "issue", "c": k}, func() func(M) {
						err := is.IssueClaim(cl)
						n := int(cl.Metadata().RevNonce)
						if err == nil {
							tabMu.Lock()
							objs[k] = cl
							tabMu.Unlock()
						}
						return func(m M) { m["res"], m["n"] = treeErr(err), n }
					})
				case x < 9:
					cl, _ := nonceKnown(k)
					h.do(M{"op": "revoke", "c": k}, func() func(M) {
						err := is.RevokeClaim(cl)
						return func(m M) {
							m["res"] = treeErr(err)
							if err == mt.ErrEntryIndexNotFound {
								m["res"] = "notfound"
							}
						}
					})
				case x < 12:
					h.do(M{"op": "publish"}, func() func(M) {
						err := is.PublishState()
						return func(m M) {
							m["res"] = treeErr(err)
							if err == issuer.ErrIdenStatePendingNotNil {
								m["res"] = "pending"
							}
						}
					})
				case x < 14:
					cl, nn := nonceKnown(k)
					h.do(M{"op": "cred", "c": k, "n": nn}, func() func(M) {
						cr, err := is.GenCredentialExistence(cl)
						return func(m M) { t.cred(m, cr, err, k, nn, id) }
					})
				case x < 16:
					h.do(M{"op": "state"}, func() func(M) {
						st, rts := is.State()
						return func(m M) {
							a, b, o := m2h(rts.ClaimsTreeRoot), m2h(rts.RevocationsTreeRoot), m2h(rts.RootsTreeRoot)
							m["s"] = t.state(a, b, o)
							if refPoseidon(a, b, o) != m2h(st) {
								m["s"] = M{"ok": false, "zero": false, "why": "the state is not the hash of the roots"}
							}
						}
					})
				case x < 17:
					h.do(M{"op": "onchain"}, func() func(M) {
						st := *is.IdenStateOnChain()
						return func(m M) { m["s"] = t.byHash(H(st)) }
					})
				case x < 18:
					h.do(M{"op": "data"}, func() func(M) {
						st := *is.StateDataOnChain()
						return func(m M) { m["s"] = t.byHash(m2h(st.IdenState)) }
					})
				case x < 20:
					h.do(M{"op": "pending"}, func() func(M) {
						st, tr := is.IdenStatePending()
						v := *st
						return func(m M) { m["s"], m["tr"] = t.byHash(H(v)), tr }
					})
				case x < 22:
					h.do(M{"op": "sync"}, func() func(M) {
						err := is.SyncIdenStatePublic()
						return func(m M) { m["res"] = treeErr(err) }
					})
				case x < 23:
					good := wr.Intn(4) != 0
					h.do(M{"op": "mine", "good": good}, func() func(M) {
						st, any := ch.mine(*id, m2h(genState), good)
						return func(m M) {
							m["s"] = t.byHash(st)
							if !any {
								m["s"] = t.byHash(H{})
							}
						}
					})
				default:
					k := 1 + wr.Intn(2)
					h.do(M{"op": "advance", "n": k}, func() func(M) {
						ch.mu.Lock()
						ch.f.blk += uint64(k)
						ch.mu.Unlock()
						return nil
					})
				}
			}
		})
	}
	r.all("lin", s, ws)
	s.gated = false
	c.check(ch.odd == "", "lin.chain", "%s", ch.odd)
	c.check(ch.f.odd == "", "lin.chain", "%s", ch.f.odd)
	// when all is quiet: what was submitted, and the issuer as it is and as it is after a restart
	h.do(M{"op": "submitted"}, func() func(M) {
		return func(m M) {
			l := []M{}
			for _, x := range ch.subs {
				l = append(l, t.byHash(x))
			}
			m["l"] = l
		}
	})
	look := func(is *issuer.Issuer) {
		st, rts := is.State()
		a, b, o := m2h(rts.ClaimsTreeRoot), m2h(rts.RevocationsTreeRoot), m2h(rts.RootsTreeRoot)
		c.check(refPoseidon(a, b, o) == m2h(st), "lin.state", "the state is not the hash of the roots")
		h.do(M{"op": "state"}, func() func(M) { return func(m M) { m["s"] = t.state(a, b, o) } })
		on := m2h(is.IdenStateOnChain())
		h.do(M{"op": "onchain"}, func() func(M) { return func(m M) { m["s"] = t.byHash(on) } })
		p, tr := is.IdenStatePending()
		h.do(M{"op": "pending"}, func() func(M) { return func(m M) { m["s"], m["tr"] = t.byHash(m2h(p)), tr } })
		for k := 1; k <= contents; k++ {
			cl, nn := nonceKnown(k)
			cr, err := is.GenCredentialExistence(cl)
			k := k
			h.do(M{"op": "cred", "c": k, "n": nn}, func() func(M) { return func(m M) { t.cred(m, cr, err, k, nn, id) } })
		}
	}
	look(is)
	var is2 *issuer.Issuer
	h.do(M{"op": "sync", "res": "ok"}, func() func(M) { // loading synchronizes
		is2, err = issuer.Load(base, w.ks, ch, conf, pub)
		c.check(err == nil, "lin.reload", "the issuer cannot be loaded again: %v", err)
		return nil
	})
	look(is2)
	ops := r.finish(h)
	return M{"confirm": confirm, "genesis": genesis, "ops": ops, "backend": r.backend, "mode": r.mode, "n": n}
}

// cred tells which state a credential is for, having checked that it is right
// for that state.
func (t *concIssuer) cred(m M, cr *proof.CredentialExistence, err error, k, nn int, id *core.ID) {
	m["s"] = M{"ok": false, "zero": true}
	switch err {
	case nil:
	case issuer.ErrIdenStateOnChainZero:
		m["res"] = "zero"
		return
	case issuer.ErrClaimNotYetInOnChainState:
		m["res"] = "notyet"
		return
	case issuer.ErrClaimNotFoundClaimsTree:
		m["res"] = "notfound"
		return
	default:
		m["res"] = "error: " + err.Error()
		return
	}
	m["res"] = "ok"
	st := t.byHash(m2h(cr.IdenStateData.IdenState))
	m["s"] = st
	no := func(why string) { m["s"] = M{"ok": false, "zero": false, "why": why} }
	cl := idContent(k, 0)
	cl.Metadata().RevNonce = uint32(nn)
	if cr.Claim.Data != cl.Entry().Data || !cr.Id.Equals(id) {
		no("another claim or identity")
		return
	}
	e := refEntryMemo(cr.Claim.Data)
	root, err := mt.RootFromProof(cr.MtpClaim, h2m(e[0]), h2m(e[1]))
	if err != nil || !cr.MtpClaim.Existence {
		no("no proof of existence")
		return
	}
	if refPoseidon(m2h(root), m2h(cr.RevocationsTreeRoot), m2h(cr.RootsTreeRoot)) != m2h(cr.IdenStateData.IdenState) {
		no("the roots do not make the state")
	}
}

func init() {
	commands["concissuer"] = func(a []string) { concMain(a, concIssuerHistory) }
}
