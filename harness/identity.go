package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	offlocal "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	mt "github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// identityReplay follows spec/Identity.tla.

type leafLog struct {
	c     int // content
	n     int // nonce in the specification
	nonce uint32
	lf    [2]H
}

type oneIden struct {
	n     int
	scale uint64
	raw   db.Storage
	dir   string
	close func()
	base  db.Storage // the disk
	fs    *faultStorage
	is    *issuer.Issuer
	kop   *babyjub.PublicKeyComp
	w     *offWriter
	made  bool
	only  bool
	id    core.ID
	cl    []leafLog
	rv    []uint32
	rt    []H
	objs  map[int]claims.Claimer
	memo  map[string]H
	now   M // last specified observation
}

type credRec struct {
	b  []byte // JSON
	ex *proof.CredentialExistence
}

type zkRec struct {
	i   int
	out *holder.ZkProofCredOut
	b   []byte
}

type identityReplay struct {
	w       *idWorld
	rnd     *rand.Rand
	ids     map[int]*oneIden
	shared  db.Storage
	ch      *fakeChain
	local   *offlocal.IdenPubOffChain
	http    bool
	creds   [][]byte // JSON of existence credentials
	vals    [][]byte
	zks     []zkRec
	clean   []func()
	now     int // half seconds
	renumb  bool
	confirm uint64 // blocks the identities wait for
	rewrote int
}

const confirmBlocks = 2

func init() {
	modules["identity"] = func(c *Ctx) Replayer {
		w := getWorld(c)
		r := &identityReplay{w: w, rnd: rand.New(rand.NewSource(c.seed*6007 + int64(c.beh))), ids: map[int]*oneIden{},
			ch: &fakeChain{w: w, blk: 1, recs: map[core.ID][]proof.IdenStateData{}}, http: strings.HasSuffix(c.fl, "http")}
		// What the specification counts in single blocks may be many more.
		r.ch.scale = []uint64{1, 1, 1, 3, 128, 1 << 15, 1 << 31, 1 << 48}[r.rnd.Intn(8)]
		r.ch.blk = r.ch.scale
		r.confirm = confirmBlocks * r.ch.scale
		switch {
		case strings.Contains(c.fl, "never"): // more blocks than will ever come
			r.confirm = []uint64{math.MaxUint64, 1 << 63, 1<<63 - 1}[r.rnd.Intn(3)]
		case strings.Contains(c.fl, "zero"):
			r.confirm = 0
		}
		w.front.IdenPubOnChainer = r.ch
		w.reader.f, w.reader.sub = r.read, nil
		setProver(nil)
		return r
	}
}

func (r *identityReplay) Close() {
	setProver(nil)
	for _, o := range r.ids {
		if r.shared == nil {
			o.raw.Close()
		}
	}
	if r.shared != nil {
		r.shared.Close()
	}
	for _, f := range r.clean {
		f()
	}
}

func (r *identityReplay) iden(c *Ctx, n int) *oneIden {
	if o, ok := r.ids[n]; ok {
		return o
	}
	o := &oneIden{n: n, kop: r.w.keys[n-1], objs: map[int]claims.Claimer{}, memo: map[string]H{}, scale: r.ch.scale}
	if strings.Contains(c.fl, "prefix") {
		if r.shared == nil {
			s, _, cl := c.newStorage("shared")
			r.shared = s
			r.clean = append(r.clean, cl)
		}
		o.raw = r.shared
		o.base = r.shared.WithPrefix([]byte(fmt.Sprintf("id%c:", 'a'+n)))
	} else {
		s, d, cl := c.newStorage(fmt.Sprintf("iden%d", n))
		o.raw, o.dir = s, d
		r.clean = append(r.clean, cl)
		o.base = s
	}
	o.fs = newFaultStorage(o.base)
	if r.http {
		wr, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: 4, Url: fmt.Sprintf("http://issuer%d", n)}, db.NewMemoryStorage())
		must(err)
		o.w = &offWriter{IdenPubOffChainWriter: wr}
	} else {
		if r.local == nil {
			r.local = offlocal.NewIdenPubOffChain("http://local")
		}
		o.w = &offWriter{IdenPubOffChainWriter: r.local}
	}
	r.ids[n] = o
	return o
}

// reopen closes the storage of o and opens it again.
func (o *oneIden) reopen(c *Ctx, r *identityReplay) {
	o.is = nil
	if o.dir == "" || r.shared != nil {
		return
	}
	o.raw.Close()
	s, err := db.NewLevelDbStorage(o.dir, true)
	c.check(err == nil, "id.reopen", "cannot reopen the storage: %v", err)
	o.raw, o.base = s, s
	o.fs = newFaultStorage(s)
}

// read answers the holder's requests for public data.
func (r *identityReplay) read(url string, id *core.ID, st *mt.Hash) (*idenpuboffchain.PublicData, error) {
	if !r.http {
		return r.local.GetPublicData(url, id, st)
	}
	for _, o := range r.ids {
		if o.w.Url() == url && o.id == *id {
			b, err := o.w.IdenPubOffChainWriter.(*writerhttp.IdenPubOffChainWriteHttp).GetPublicData(st)
			if err != nil {
				return nil, err
			}
			js, err := json.Marshal(b)
			if err != nil {
				return nil, err
			}
			var again idenpuboffchain.PublicDataBlobs
			if err := json.Unmarshal(js, &again); err != nil {
				return nil, err
			}
			return idenpuboffchain.NewPublicDataFromBlobs(&again)
		}
	}
	return nil, fmt.Errorf("no such address: %s", url)
}

/********************************** expected *********************************/

type ext struct { // what an operation may have added
	cl []leafLog
	rv []uint32
}

func (o *oneIden) clr(n int, x ext) H {
	l := append(append([]leafLog{}, o.cl...), x.cl...)
	if n > len(l) {
		return H{1}
	}
	k := "c" + fmt.Sprint(n)
	if n > 0 {
		k += string(l[n-1].lf[0][:]) + string(l[n-1].lf[1][:])
	}
	if h, ok := o.memo[k]; ok {
		return h
	}
	var ls [][2]H
	for _, e := range l[:n] {
		ls = append(ls, e.lf)
	}
	h := mTree(ls, 0)
	o.memo[k] = h
	return h
}
func (o *oneIden) rer(n int, x ext) H {
	l := append(append([]uint32{}, o.rv...), x.rv...)
	if n > len(l) {
		return H{2}
	}
	k := fmt.Sprint("r", l[:n])
	if h, ok := o.memo[k]; ok {
		return h
	}
	var ls [][2]H
	for _, e := range l[:n] {
		ls = append(ls, revLeaf(e))
	}
	h := mTree(ls, 0)
	o.memo[k] = h
	return h
}
func (o *oneIden) ror(n int, x ext) H {
	l := append([]H{}, o.rt...)
	if n > len(l) { // the root that publishing adds
		l = append(l, o.clr(len(o.cl)+len(x.cl), x))
	}
	if n > len(l) {
		return H{3}
	}
	k := fmt.Sprint("o", l[:n])
	if h, ok := o.memo[k]; ok {
		return h
	}
	var ls [][2]H
	for _, e := range l[:n] {
		ls = append(ls, rootsLeaf(e))
	}
	h := mTree(ls, 0)
	o.memo[k] = h
	return h
}

func mTree(ls [][2]H, lvl int) H {
	switch len(ls) {
	case 0:
		return H{}
	case 1:
		return mLeaf(ls[0][0], ls[0][1])
	}
	var l, rr [][2]H
	for _, x := range ls {
		if refBit(x[0], lvl) == 0 {
			l = append(l, x)
		} else {
			rr = append(rr, x)
		}
	}
	return mMid(mTree(l, lvl+1), mTree(rr, lvl+1))
}

type triple struct{ clr, rer, ror, st H }

func (o *oneIden) triple(st interface{}, x ext) triple {
	a := arr(st)
	if len(a) == 0 {
		return triple{}
	}
	t := triple{clr: o.clr(num(a[0]), x), rer: o.rer(num(a[1]), x), ror: o.ror(num(a[2]), x)}
	k := "s" + string(t.clr[:]) + string(t.rer[:]) + string(t.ror[:])
	if h, ok := o.memo[k]; ok {
		t.st = h
		return t
	}
	t.st = refPoseidon(t.clr, t.rer, t.ror)
	o.memo[k] = t.st
	return t
}

func (o *oneIden) data(on interface{}, x ext) *proof.IdenStateData {
	m := obj(on)
	t := o.triple(m["st"], x)
	d := &proof.IdenStateData{IdenState: h2m(t.st)}
	if len(arr(m["st"])) > 0 {
		d.BlockN, d.BlockTs = uint64(num(m["blk"]))*o.scale, baseTime+int64(num(m["ts"]))
	}
	return d
}

func sameData(a *proof.IdenStateData, b *proof.IdenStateData) bool {
	return a != nil && a.IdenState != nil && a.BlockN == b.BlockN && a.BlockTs == b.BlockTs && *a.IdenState == *b.IdenState
}

// differs compares an issuer with a specified observation.
func (o *oneIden) differs(is *issuer.Issuer, ob M, x ext) string {
	want := o.triple(ob["cur"], x)
	st, rts := is.State()
	switch {
	case m2h(rts.ClaimsTreeRoot) != want.clr:
		return fmt.Sprintf("claims tree is not the specified one (state %v)", ob["cur"])
	case m2h(rts.RevocationsTreeRoot) != want.rer:
		return fmt.Sprintf("revocations tree is not the specified one (state %v)", ob["cur"])
	case m2h(rts.RootsTreeRoot) != want.ror:
		return fmt.Sprintf("roots tree is not the specified one (state %v)", ob["cur"])
	case m2h(st) != want.st:
		return "state is not the hash of its roots"
	}
	if d := is.StateDataOnChain(); !sameData(d, o.data(ob["on"], x)) {
		return fmt.Sprintf("state known to be on chain is %+v, specified %v", d, ob["on"])
	}
	if h := is.IdenStateOnChain(); m2h(h) != m2h(is.StateDataOnChain().IdenState) {
		return "the two accounts of the state on chain differ"
	}
	p, sent := is.IdenStatePending()
	if m2h(p) != o.triple(ob["pend"], x).st || sent != ob["sent"].(bool) {
		return fmt.Sprintf("pending state is %v (sent: %v), specified %v (sent: %v)", p, sent, ob["pend"], ob["sent"])
	}
	if *is.ID() != o.id || *is.KeyOperational() != *o.kop {
		return "identifier or operational key changed"
	}
	// What it gave belongs to the caller.
	*is.StateDataOnChain().IdenState, *is.IdenStateOnChain() = mt.Hash{1}, mt.Hash{2}
	*p, *st, *rts.ClaimsTreeRoot, *rts.RevocationsTreeRoot, *rts.RootsTreeRoot = mt.Hash{3}, mt.Hash{4}, mt.Hash{5}, mt.Hash{6}, mt.Hash{7}
	*is.ID(), *is.KeyOperational() = core.ID{8}, babyjub.PublicKeyComp{9}
	p, _ = is.IdenStatePending()
	st, _ = is.State()
	if m2h(p) != o.triple(ob["pend"], x).st || m2h(st) != want.st || *is.ID() != o.id || *is.KeyOperational() != *o.kop || !sameData(is.StateDataOnChain(), o.data(ob["on"], x)) {
		return "what a caller did with its copy changed the issuer"
	}
	return ""
}

// peek loads the issuer from its disk without letting it learn anything new.
func (r *identityReplay) peek(o *oneIden, on *proof.IdenStateData) (*issuer.Issuer, error) {
	if o.only {
		return issuer.Load(o.base, r.w.ks, nil, nil, nil)
	}
	if m2h(on.IdenState) == (H{}) {
		on = nil
	}
	return issuer.Load(o.base, r.w.ks, &peekChain{on: on}, &issuer.IdenStateZkProofConf{Levels: levelsState, Files: *r.w.state}, o.w.IdenPubOffChainWriter)
}

// settleObs compares the identity with the specified observation after a step.
func (r *identityReplay) look(c *Ctx, o *oneIden, ob M, x ext, sig string, always bool) string {
	up := ob["up"].(bool)
	if up {
		if o.is == nil {
			return "the identity is not loaded"
		}
		if d := o.differs(o.is, ob, x); d != "" {
			return d
		}
	}
	if !up && o.made || always || (o.made && r.rnd.Intn(5) == 0) {
		is, err := r.peek(o, o.data(ob["on"], x))
		if err != nil {
			return fmt.Sprintf("cannot load the identity from its storage: %v", err)
		}
		if d := o.differs(is, ob, x); d != "" {
			return "after a reload: " + d
		}
		c.bump("reloads_compared")
	}
	return ""
}

func dump(s db.Storage) string {
	h := sha256.New()
	var ks []string
	must(s.Iterate(func(k, v []byte) (bool, error) {
		ks = append(ks, fmt.Sprintf("%x=%x;", k, v))
		return true, nil
	}))
	sort.Strings(ks)
	for _, k := range ks {
		h.Write([]byte(k))
	}
	return string(h.Sum(nil))
}

/*********************************** faults **********************************/

// with runs f under the fault of the step and tells how it ended.
func (r *identityReplay) with(c *Ctx, o *oneIden, s M, f func() error) (err error, crashed, fired bool) {
	ft, _ := s["fault"].(M)
	k, how := str(ft["k"]), str(ft["how"])
	proved := false
	switch k {
	case "commit":
		o.fs.ctl.arm(map[string]string{"fail": "commit", "before": "crash-before", "after": "crash-after"}[how], num(ft["n"]), false)
	case "read":
		o.fs.ctl.arm(how, num(ft["n"]), false)
	case "zk":
		bad := r.rnd.Intn(2)
		setProver(func(p *zktypes.Proof) error {
			proved = true
			setProver(nil)
			if bad == 0 {
				return errors.New("injected prover fault")
			}
			p.A.Add(p.A, p.A)
			return nil
		})
	case "off":
		o.w.fault, o.w.fired = true, false
	case "submit", "getstate", "receipt":
		r.ch.fault, r.ch.how, r.ch.fired = k, how, false
	}
	crashed = crashes(func() { err = f() })
	switch k {
	case "commit", "read":
		fired = o.fs.ctl.fired
		o.fs.ctl.disarm()
	case "zk":
		fired = proved
		setProver(nil)
	case "off":
		fired = o.w.fired
		o.w.fault = false
	case "submit", "getstate", "receipt":
		fired = r.ch.fired
		r.ch.fault = ""
	}
	if fired {
		c.bump("fault_" + k)
		if crashed {
			c.bump("crashes")
		}
	}
	return
}

// after judges the result of an operation under the fault of the step: the
// identity must be as specified; where the code takes its small steps in
// another order, it must be as after some prefix of them, and recover.
func (r *identityReplay) after(c *Ctx, o *oneIden, s M, err error, crashed, fired bool, x ext) {
	ft, _ := s["fault"].(M)
	ob := obj(s["obs"])
	ret := str(s["ret"])
	if crashed {
		o.reopen(c, r)
	}
	if str(ft["k"]) != "" {
		if !fired {
			c.bump("fault_not_reached")
			c.check(err == nil || str(ft["k"]) == "read", "id.fault", "error without a fault: %v", err)
			r.recover(c, o)
		}
		if str(ft["k"]) == "read" && err == nil { // it did without what it could not read: then all is done
			c.bump("read_not_needed")
			al := arr(s["alts"])
			end := M{}
			for k, v := range obj(al[len(al)-1]) {
				end[k] = v
			}
			end["up"] = true
			d := r.look(c, o, end, x, "", true)
			c.check(d == "", "id.fault", "a read fault (%v) was reported as success: %s", ft, d)
			o.log(obj(al[len(al)-1]), x)
			r.recover(c, o)
		}
		if ret == "error" {
			c.check(err != nil, "id.fault", "a fault (%v) was reported as success", ft)
		}
	}
	d := r.look(c, o, ob, x, "", str(ft["k"]) != "")
	if d != "" && str(ft["k"]) != "" {
		for _, a := range arr(s["alts"]) {
			if o.made && r.look(c, o, obj(a), x, "", true) == "" {
				c.bump("fault_elsewhere")
				o.log(obj(a), x)
				r.recover(c, o)
			}
		}
	}
	c.check(d == "", "id.state", "after %s -> %s (%v): %s", c.op, ret, ft, d)
	o.log(ob, x)
	o.now = ob
}

// log keeps what the observation shows to have been added.
func (o *oneIden) log(ob M, x ext) {
	cur := arr(ob["cur"])
	n, m, k := num(cur[0]), num(cur[1]), num(cur[2])
	for _, e := range x.cl {
		if len(o.cl) < n {
			o.cl = append(o.cl, e)
		}
	}
	for _, e := range x.rv {
		if len(o.rv) < m {
			o.rv = append(o.rv, e)
		}
	}
	if len(o.rt) < k {
		o.rt = append(o.rt, o.clr(len(o.cl), ext{}))
	}
}

// recover checks that the identity can still publish everything it holds,
// when its intermediate steps are not those of the specification.  The
// behaviour ends here.
func (r *identityReplay) recover(c *Ctx, o *oneIden) {
	if !o.made || o.only {
		panic(abortBehaviour{})
	}
	if o.is == nil {
		c.check(r.load(o) == nil, "id.recover", "cannot load the identity after a fault")
	}
	before, rts := o.is.State()
	for k := 0; k < 4; k++ {
		err := o.is.PublishState()
		c.check(err == nil || err == issuer.ErrIdenStatePendingNotNil, "id.recover", "cannot publish after a fault: %v", err)
		r.ch.blk += r.ch.scale
		for _, t := range r.ch.txs {
			if t.blk == 0 {
				l := r.ch.recs[t.id]
				t.blk = r.ch.blk
				if t.init && len(l) == 0 && t.proves(t.old) || !t.init && len(l) > 0 && t.proves(m2h(l[len(l)-1].IdenState)) {
					t.ok = true
					r.ch.recs[t.id] = append(l, proof.IdenStateData{BlockN: r.ch.blk, BlockTs: baseTime + int64(r.now/2), IdenState: h2m(t.new)})
				}
			}
		}
		r.ch.blk += r.confirm + r.ch.scale
		err = o.is.SyncIdenStatePublic()
		c.check(err == nil, "id.recover", "cannot learn from the chain after a fault: %v", err)
	}
	st, rts2 := o.is.State()
	c.check(m2h(rts2.ClaimsTreeRoot) == m2h(rts.ClaimsTreeRoot) && m2h(rts2.RevocationsTreeRoot) == m2h(rts.RevocationsTreeRoot),
		"id.recover", "publishing after a fault changed the trees")
	l := r.ch.recs[o.id]
	if len(l) == 0 {
		g := o.triple([]interface{}{float64(o.genLen()), 0.0, 1.0}, ext{})
		c.check(m2h(before) == g.st, "id.recover", "nothing on chain after a fault and retries")
	} else {
		c.check(m2h(l[len(l)-1].IdenState) == m2h(st) && sameData(o.is.StateDataOnChain(), &l[len(l)-1]),
			"id.recover", "the state on chain is not the one of the issuer after a fault and retries")
		_, err := r.read(o.w.Url(), &o.id, st)
		c.check(err == nil, "id.recover", "no public data for the state on chain after a fault and retries: %v", err)
	}
	c.bump("recovered")
	panic(abortBehaviour{})
}

func (o *oneIden) genLen() int {
	for n := 1; n <= len(o.cl); n++ {
		if len(o.rt) > 0 && o.clr(n, ext{}) == o.rt[0] {
			return n
		}
	}
	return 0
}

func (r *identityReplay) load(o *oneIden) error {
	if o.only && r.rnd.Intn(2) == 0 { // with all the others it is as unchangeable
		is, err := issuer.Load(o.fs, r.w.ks, nil, nil, nil)
		if err == nil {
			o.is = is
		}
		return err
	}
	is, err := issuer.Load(o.fs, r.w.ks, r.ch, &issuer.IdenStateZkProofConf{Levels: levelsState, Files: *r.w.state}, o.w)
	if err == nil {
		o.is = is
	}
	return err
}

func (r *identityReplay) Step(c *Ctx, s M) {
	switch op := str(s["op"]); op {
	case "mine":
		r.mine(c, s)
	case "blocks":
		r.ch.blk = uint64(num(s["blk"])) * r.ch.scale
	case "tick":
		r.now = num(s["now"])
	case "val", "verE", "verV", "mixE", "mixV", "hurt", "zk", "zkver":
		r.credStep(c, op, s)
	default:
		r.idStep(c, op, s)
	}
	if r.ch.odd != "" {
		c.check(false, "id.chain", "%s", r.ch.odd)
	}
}

func (r *identityReplay) mine(c *Ctx, s M) {
	r.ch.blk = uint64(num(s["blk"])) * r.ch.scale
	done := arr(s["done"])
	c.check(len(done) == len(r.ch.txs), "id.tx", "%d transactions were sent, %d specified", len(r.ch.txs), len(done))
	for k, x := range done {
		t := r.ch.txs[k]
		if b := uint64(num(obj(x)["blk"])) * r.ch.scale; t.blk == 0 && b != 0 {
			t.blk, t.ok = b, obj(x)["ok"].(bool)
			if t.ok {
				r.ch.recs[t.id] = append(r.ch.recs[t.id], proof.IdenStateData{BlockN: b, BlockTs: baseTime + int64(num(s["ts"])), IdenState: h2m(t.new)})
			}
		}
	}
	for n, x := range arr(s["last"]) {
		if o, ok := r.ids[n+1]; ok && o.made {
			l := r.ch.recs[o.id]
			want := o.data(x, ext{})
			if len(l) == 0 {
				c.check(m2h(want.IdenState) == (H{}), "id.onchain", "nothing on chain, specified %v", x)
			} else {
				c.check(sameData(&l[len(l)-1], want), "id.onchain", "on chain is %+v, specified %v", l[len(l)-1], x)
			}
		}
	}
}

func (r *identityReplay) idStep(c *Ctx, op string, s M) {
	o := r.iden(c, num(obj(s["obs"])["i"]))
	ret := str(s["ret"])
	nsent := len(r.ch.txs)
	switch op {
	case "create":
		r.create(c, o, s)
	case "issue":
		r.issue(c, o, s)
	case "revoke":
		n := num(s["c"])
		var cl claims.Claimer
		if have, ok := o.objs[n]; ok && r.rnd.Intn(2) == 0 {
			cl = have
		} else {
			cl = r.object(o, n)
			cl.Metadata().RevNonce = 4000
		}
		was := dump(o.base)
		err, crashed, fired := r.with(c, o, s, func() error { return o.is.RevokeClaim(cl) })
		var x ext
		for _, e := range o.cl {
			if e.c == n {
				x.rv = []uint32{e.nonce}
			}
		}
		switch ret {
		case "ok":
			c.check(err == nil, "id.revoke", "revocation refused: %v", err)
		case "only":
			c.check(err == issuer.ErrIdenGenesisOnly, "id.only", "revocation by a genesis-only identity: %v", err)
			err = o.is.UpdateClaim(&mt.HashZero, nil)
			c.check(err == issuer.ErrIdenGenesisOnly, "id.only", "update by a genesis-only identity: %v", err)
		case "unknown":
			c.check(err != nil, "id.revoke", "revocation of a claim that was never issued succeeded")
		case "dup":
			c.check(err != nil, "id.revoke", "revocation of a revoked claim succeeded")
		}
		if ret != "ok" && str(obj(s["fault"])["k"]) == "" {
			c.check(dump(o.base) == was, "id.revoke", "a refused revocation (%s) changed the storage", ret)
		}
		r.after(c, o, s, err, crashed, fired, x)
	case "publish":
		was := dump(o.base)
		err, crashed, fired := r.with(c, o, s, func() error { return o.is.PublishState() })
		switch ret {
		case "ok":
			c.check(err == nil, "id.publish", "publication failed: %v", err)
		case "only":
			c.check(err == issuer.ErrIdenGenesisOnly, "id.only", "publication by a genesis-only identity: %v", err)
		case "pending":
			c.check(err == issuer.ErrIdenStatePendingNotNil, "id.publish", "publication while another is pending: %v", err)
		}
		if ret == "only" || ret == "pending" {
			c.check(dump(o.base) == was, "id.publish", "a refused publication changed the storage")
		}
		r.after(c, o, s, err, crashed, fired, ext{})
		tx := obj(s["tx"])
		if num(tx["i"]) == 0 {
			c.check(len(r.ch.txs) == nsent, "id.tx", "a transaction was sent, none specified")
		} else {
			c.check(len(r.ch.txs) == nsent+1, "id.tx", "%d transactions were sent, one specified", len(r.ch.txs)-nsent)
			t := r.ch.txs[nsent]
			old, new := o.triple(tx["old"], ext{}).st, o.triple(tx["new"], ext{}).st
			c.check(t.id == o.id && t.init == tx["init"].(bool), "id.tx", "transaction for %v (first: %v), specified first: %v", t.id, t.init, tx["init"])
			c.check(t.new == new, "id.tx", "transaction to a state that is not the pending one (%v)", tx["new"])
			c.check(!t.init || t.old == old, "id.tx", "first transaction starts from a state that is not the genesis one")
			c.check(t.proves(old), "id.tx", "the proof is not for the transition %v to %v", tx["old"], tx["new"])
			nsent++
			_, err := r.read(o.w.Url(), &o.id, h2m(new))
			c.check(err == nil, "id.published", "a state was sent to the chain before its public data could be read: %v", err)
		}
	case "sync":
		if s["rogue"].(bool) {
			h := refPoseidon(H{byte(r.rnd.Intn(256))}, H{0xee}, H{})
			r.ch.rogue = &h
		}
		err, crashed, fired := r.with(c, o, s, func() error { return o.is.SyncIdenStatePublic() })
		r.ch.rogue = nil
		switch ret {
		case "ok":
			c.check(err == nil, "id.sync", "synchronization failed: %v", err)
		case "only":
			c.check(err == issuer.ErrIdenGenesisOnly, "id.only", "synchronization of a genesis-only identity: %v", err)
		case "fatal":
			c.check(err != nil, "id.sync", "an unexpected state on chain was accepted")
		}
		r.after(c, o, s, err, crashed, fired, ext{})
	case "stop":
		o.reopen(c, r)
		d := r.look(c, o, obj(s["obs"]), ext{}, "", true)
		c.check(d == "", "id.state", "after stop: %s", d)
	case "load":
		r.loadStep(c, o, s)
	case "cred":
		r.cred(c, o, s)
	case "own":
		r.own(c, o, s)
	case "settled":
		st, _ := o.is.State()
		on := o.is.StateDataOnChain()
		if m2h(on.IdenState) != (H{}) {
			c.check(*st == *on.IdenState, "id.settled", "not everything is on chain")
			pd, err := r.read(o.w.Url(), &o.id, st)
			c.check(err == nil, "id.published", "no public data for the state on chain: %v", err)
			for _, n := range o.rv {
				l := revLeaf(n)
				p, err := pd.RevocationsTree.GenerateProof(h2m(l[0]), nil)
				c.check(err == nil && p.Existence, "id.published", "a revocation is missing in the public data (%v)", err)
			}
		}
		c.bump("settled")
		d := r.look(c, o, obj(s["obs"]), ext{}, "", true)
		c.check(d == "", "id.state", "after settling: %s", d)
	default:
		internal("unknown operation %s", op)
	}
	c.check(len(r.ch.txs) == nsent, "id.tx", "a transaction was sent by %s", op)
}

// object is a fresh claim object with the content n.
func (r *identityReplay) object(o *oneIden, n int) claims.Claimer {
	if n > 100 {
		k, err := o.kop.Decompress()
		must(err)
		return claims.NewClaimKeyBabyJub(k, claims.BabyJubKeyTypeAuthorizeKSign)
	}
	return idContent(n, idExp[n])
}

// idExp are the expirations of contents, as the specification told.
var idExp = map[int]int64{}

func (r *identityReplay) create(c *Ctx, o *oneIden, s M) {
	ret := str(s["ret"])
	cfg := issuer.Config{MaxLevelsClaimsTree: 140, MaxLevelsRevocationTree: 140, MaxLevelsRootsTree: 140, GenesisOnly: s["only"].(bool), ConfirmBlocks: r.confirm}
	var ex []claims.Claimer
	for k, x := range arr(s["gen"]) {
		idExp[num(x)] = int64(num(arr(s["exps"])[k]))
		cl := r.object(o, num(x))
		cl.Metadata().RevNonce = 999
		ex = append(ex, cl)
	}
	was := dump(o.base)
	var id *core.ID
	err, crashed, fired := r.with(c, o, s, func() error {
		var err error
		id, err = issuer.Create(cfg, o.kop, ex, o.fs, r.w.ks)
		return err
	})
	var x ext
	if ret != "exists" {
		kop := r.object(o, 100+o.n)
		x.cl = append(x.cl, leafLog{100 + o.n, 0, 0, refEntryMemo(kop.Entry().Data)})
		seen := map[uint32]bool{0: true}
		for k, e := range ex {
			n := e.Metadata().RevNonce
			if ret == "ok" {
				c.check(!seen[n] && n < 900, "id.nonce", "genesis claim with nonce %d", n)
			}
			seen[n] = true
			x.cl = append(x.cl, leafLog{num(arr(s["gen"])[k]), k + 1, n, refEntryMemo(e.Entry().Data)})
			r.renumb = r.renumb || int(n) != k+1
		}
	}
	switch ret {
	case "ok":
		c.check(err == nil && id != nil, "id.create", "creation failed: %v", err)
		o.objs[100+o.n] = r.object(o, 100+o.n)
		for k, e := range ex {
			o.objs[num(arr(s["gen"])[k])] = e
		}
	case "exists":
		c.check(err != nil, "id.create", "a second identity was created in the same storage")
		c.check(dump(o.base) == was, "id.create", "a refused creation changed the storage")
		r.after(c, o, s, err, crashed, fired, ext{})
		return
	}
	ob := obj(s["obs"])
	ft := str(obj(s["fault"])["k"])
	if len(arr(ob["cur"])) == 3 && num(arr(ob["cur"])[0]) > 0 { // made
		o.made, o.only = true, s["only"].(bool)
		o.id = genesisID(mTree(leaves(x.cl), 0))
		c.check(id == nil || *id == o.id, "id.create", "identifier %v is not the genesis one", id)
		if crashed {
			o.objs[100+o.n] = r.object(o, 100+o.n)
			for k, e := range ex {
				o.objs[num(arr(s["gen"])[k])] = e
			}
		}
		o.rt = nil
	} else if ft != "" {
		if crashed {
			o.reopen(c, r)
		}
		if !fired {
			c.bump("fault_not_reached")
			panic(abortBehaviour{})
		}
		if err == nil && ft == "read" {
			c.bump("read_not_needed")
			c.check(id != nil && *id == genesisID(mTree(leaves(x.cl), 0)), "id.create", "identifier %v is not the genesis one", id)
			_, err := issuer.Load(o.base, r.w.ks, &peekChain{}, &issuer.IdenStateZkProofConf{Levels: levelsState, Files: *r.w.state}, o.w)
			c.check(err == nil, "id.fault", "a read fault in creation was reported as success, but there is no identity: %v", err)
			panic(abortBehaviour{})
		}
		c.check(err != nil || crashed, "id.fault", "a fault in creation was reported as success")
		// nothing that looks like an identity is left
		if _, err := issuer.Load(o.base, r.w.ks, &peekChain{}, &issuer.IdenStateZkProofConf{Levels: levelsState, Files: *r.w.state}, o.w); err == nil {
			// it is complete after all: as after the operation
			c.bump("fault_elsewhere")
			panic(abortBehaviour{})
		}
		return
	}
	if ft != "" && !fired {
		c.bump("fault_not_reached")
		panic(abortBehaviour{})
	}
	r.after(c, o, s, err, crashed, fired, x)
}

func leaves(l []leafLog) (r [][2]H) {
	for _, e := range l {
		r = append(r, e.lf)
	}
	return
}

func (r *identityReplay) issue(c *Ctx, o *oneIden, s M) {
	ret := str(s["ret"])
	n := num(s["c"])
	idExp[n] = int64(num(s["exp"]))
	cl := r.object(o, n)
	const mark = 77777
	cl.Metadata().RevNonce = mark
	have, issued := o.objs[n]
	again := issued && r.rnd.Intn(2) == 0
	want := uint32(mark)
	if again {
		cl, want = have, have.Metadata().RevNonce
	}
	was := dump(o.base)
	err, crashed, fired := r.with(c, o, s, func() error { return o.is.IssueClaim(cl) })
	got := cl.Metadata().RevNonce
	switch ret {
	case "ok":
		c.check(err == nil, "id.issue", "issuance refused: %v", err)
	case "dup":
		c.check(err != nil, "id.issue", "a claim with the index of an issued one was issued")
		c.check(got == want, "id.nonce", "a refused claim was altered: nonce %d became %d", want, got)
	case "only":
		c.check(err == issuer.ErrIdenGenesisOnly, "id.only", "issuance by a genesis-only identity: %v", err)
		c.check(got == want && dump(o.base) == was, "id.only", "refused issuance had an effect")
	case "error":
		c.check(err == nil || got == want, "id.nonce", "a claim whose issuance failed was altered: nonce %d became %d", want, got)
	}
	var x ext
	if !issued && ret != "only" {
		cands := []uint32{got}
		if crashed {
			for k := uint32(0); k <= uint32(num(s["n"]))+2; k++ {
				cands = append(cands, k)
			}
		}
		for _, k := range cands {
			cl.Metadata().RevNonce = k
			x.cl = []leafLog{{n, num(s["n"]), k, refEntryMemo(cl.Entry().Data)}}
			if !crashed {
				break
			}
			is, err := r.peek(o, o.data(obj(s["obs"])["on"], x))
			if err == nil && o.differs(is, obj(s["obs"]), x) == "" {
				break
			}
		}
		cl.Metadata().RevNonce = x.cl[0].nonce
	}
	r.after(c, o, s, err, crashed, fired, x)
	if len(o.cl) > 0 && o.cl[len(o.cl)-1].c == n && !issued { // it was issued
		k := o.cl[len(o.cl)-1].nonce
		for _, e := range o.cl[:len(o.cl)-1] {
			c.check(e.nonce != k, "id.nonce", "claims %d and %d have the same nonce %d", e.c, n, k)
		}
		cl.Metadata().RevNonce = k
		o.objs[n] = cl
		r.renumb = r.renumb || int(k) != num(s["n"])
	}
}

func (r *identityReplay) loadStep(c *Ctx, o *oneIden, s M) {
	ret := str(s["ret"])
	miss := str(s["miss"])
	was := dump(o.base)
	conf := &issuer.IdenStateZkProofConf{Levels: levelsState, Files: *r.w.state}
	if miss == "zkfiles" {
		bad := *zkutils.NewZkFiles("http://127.0.0.1:1/none", r.w.dir+"/idstate", zkutils.ProvingKeyFormatJSON,
			zkutils.ZkFilesHashes{ProvingKey: "00", VerificationKey: "00", WitnessCalcWASM: "00"}, true)
		conf = &issuer.IdenStateZkProofConf{Levels: levelsState, Files: bad}
	}
	old := o.is
	err, crashed, fired := r.with(c, o, s, func() error {
		var is *issuer.Issuer
		var err error
		switch {
		case o.only && r.rnd.Intn(2) == 0, !o.only && miss == "chain" && r.rnd.Intn(2) == 0 && o.made:
			is, err = issuer.Load(o.fs, r.w.ks, nil, nil, nil)
		case miss == "chain":
			is, err = issuer.Load(o.fs, r.w.ks, nil, conf, o.w)
		case miss == "zk":
			is, err = issuer.Load(o.fs, r.w.ks, r.ch, nil, o.w)
		case miss == "writer":
			is, err = issuer.Load(o.fs, r.w.ks, r.ch, conf, nil)
		case r.rnd.Intn(3) == 0: // a holder is an issuer
			var h *holder.Holder
			h, err = holder.Load(o.fs, r.w.ks, r.ch, conf, o.w, r.w.reader)
			if err == nil {
				is = h.Issuer
			}
		default:
			is, err = issuer.Load(o.fs, r.w.ks, r.ch, conf, o.w)
		}
		if err == nil {
			o.is = is
		} else {
			c.check(is == nil, "id.load", "a failed load gave an issuer")
		}
		return err
	})
	switch ret {
	case "ok":
		c.check(err == nil, "id.load", "loading failed: %v", err)
		c.check(o.is != old, "id.load", "no issuer")
	case "none":
		c.check(err != nil, "id.load", "an identity was loaded from a storage that holds none")
	case "chain":
		c.check(err == issuer.ErrIdenPubOnChainNil, "id.load", "loading without a chain client: %v", err)
	case "zk":
		c.check(err == issuer.ErrIdenStateSNARKPathsNil, "id.load", "loading without a proof configuration: %v", err)
	case "writer":
		c.check(err == issuer.ErrIdenPubOffChainWriterNil, "id.load", "loading without a publication writer: %v", err)
	case "zkfiles":
		c.check(err != nil, "id.load", "loading with proof files of other hashes succeeded")
	}
	if ret != "ok" && !(err == nil && str(obj(s["fault"])["k"]) == "read") {
		o.is = nil
	}
	if ret != "ok" && str(obj(s["fault"])["k"]) == "" {
		c.check(dump(o.base) == was, "id.load", "a refused load (%s) changed the storage", ret)
	}
	if !o.made {
		return
	}
	r.after(c, o, s, err, crashed, fired, ext{})
}

func (r *identityReplay) cred(c *Ctx, o *oneIden, s M) {
	ret := str(s["ret"])
	n := num(s["c"])
	cl, ok := o.objs[n]
	if !ok {
		cl = r.object(o, n)
		cl.Metadata().RevNonce = uint32(r.rnd.Intn(6))
	}
	var e mt.Entrier = cl
	if s["other"].(bool) {
		d := cl.Entry().Data
		switch r.rnd.Intn(3) {
		case 0:
			d[4][0] ^= 1 // the nonce
		case 1:
			d[7][5] ^= 0x10
		case 2:
			d[4][20] ^= 0x80
		}
		e = entrier{d}
	} else if r.rnd.Intn(2) == 0 {
		e = entrier{cl.Entry().Data}
	}
	was := dump(o.base)
	ex, err := o.is.GenCredentialExistence(e)
	switch ret {
	case "only":
		c.check(err == issuer.ErrIdenGenesisOnly, "id.only", "credential of a genesis-only identity: %v", err)
	case "zero":
		c.check(err == issuer.ErrIdenStateOnChainZero, "id.cred", "credential with nothing on chain: %v", err)
	case "notissued":
		c.check(err == issuer.ErrClaimNotFoundClaimsTree, "id.cred", "credential of a claim that was not issued: %v", err)
	case "notyet":
		c.check(err == issuer.ErrClaimNotYetInOnChainState, "id.cred", "credential of a claim that is not yet on chain: %v", err)
	case "ok":
		c.check(err == nil && ex != nil, "id.cred", "credential refused: %v", err)
		on := obj(obj(s["obs"])["on"])
		t := o.triple(on["st"], ext{})
		lf := refEntryMemo(cl.Entry().Data)
		root, rerr := mt.RootFromProof(ex.MtpClaim, h2m(lf[0]), h2m(lf[1]))
		c.check(rerr == nil && ex.MtpClaim.Existence && m2h(root) == t.clr, "id.credparts", "the proof of the claim does not lead to the claims root on chain")
		c.check(*ex.Id == o.id && sameData(&ex.IdenStateData, o.data(on, ext{})), "id.credparts", "credential of identity %v, state %+v; specified %v", ex.Id, ex.IdenStateData, on)
		c.check(ex.Claim.Data == cl.Entry().Data, "id.credparts", "credential of another claim")
		c.check(m2h(ex.RevocationsTreeRoot) == t.rer && m2h(ex.RootsTreeRoot) == t.ror, "id.credparts", "other roots than those of the state on chain")
		c.check(ex.IdenPubUrl == o.w.Url(), "id.credparts", "other address %s", ex.IdenPubUrl)
		b, err := json.Marshal(ex)
		c.check(err == nil, "id.credjson", "credential cannot be encoded: %v", err)
		r.creds = append(r.creds, b)
		c.check(r.verifier().VerifyCredentialExistence(ex) == nil, "id.verify", "a new credential is not accepted")
		*ex.Id, *ex.IdenStateData.IdenState, *ex.RevocationsTreeRoot, *ex.RootsTreeRoot = core.ID{1}, mt.Hash{2}, mt.Hash{3}, mt.Hash{4} // the caller's
	}
	c.check(ret == "ok" || ex == nil, "id.cred", "a refused credential was given")
	// what cannot be read is not answered for
	for _, how := range []string{"get", "txget"} {
		for n := 1; n <= 16 && r.rnd.Intn(3) > 0; n++ {
			o.fs.ctl.arm(how, n, r.rnd.Intn(4) == 0)
			ex2, err2 := o.is.GenCredentialExistence(e)
			fired := o.fs.ctl.fired
			o.fs.ctl.disarm()
			if !fired {
				break
			}
			c.bump("cred_unreadable")
			c.check((err2 == nil) == (ex2 != nil), "id.cred", "credential %v with the error %v", ex2 != nil, err2)
			c.check(err2 != nil || err == nil, "id.cred", "a credential that is refused (%v) was given while the storage could not be read", err)
			switch err2 {
			case issuer.ErrIdenGenesisOnly, issuer.ErrIdenStateOnChainZero, issuer.ErrClaimNotFoundClaimsTree, issuer.ErrClaimNotYetInOnChainState:
				c.check(err == err2, "id.credread", "the answer is %v, but while the storage could not be read (%s %d) it was: %v", err, how, n, err2)
			}
		}
	}
	c.check(dump(o.base) == was, "id.cred", "making a credential changed the storage")
	r.after(c, o, s, nil, false, false, ext{})
}

func (r *identityReplay) verifier() *verifier.Verifier {
	return verifier.NewWithTimeNow(r.ch, func() time.Time { return time.Unix(baseTime, 0).Add(time.Duration(r.now) * 500 * time.Millisecond) })
}

// own checks the inputs that prove the ownership of the identity.
func (r *identityReplay) own(c *Ctx, o *oneIden, s M) {
	lv := num(s["levels"])
	n := num(s["n"])
	in, err := o.is.GenIdOwnershipGenesisInputs(lv)
	kop := o.cl[0].lf
	depth := pathDepth(leaves(o.cl[:n]), kop[0]) // of the key in the genesis tree
	if depth > lv {
		c.check(err != nil, "id.own", "a proof of %d levels given for %d", depth, lv)
		c.bump("own_refused")
	} else {
		c.check(err == nil, "id.own", "proof of %d levels refused for %d: %v", depth, lv, err)
		c.check(len(in.MtpSiblings) == lv+1, "id.own", "%d siblings for %d levels", len(in.MtpSiblings), lv)
		root, e := climb(in.MtpSiblings, kop[0], mLeaf(kop[0], kop[1]))
		c.check(e == nil && root == o.clr(n, ext{}) && hToBig(root).Cmp(in.ClaimsTreeRoot) == 0, "id.own", "the proof of the key does not lead to the genesis claims root (%v)", e)
		c.check(in.Id.Cmp(idBig(o.id)) == 0, "id.own", "other identity")
		c.check(kopEntry(in.PrivateKey) == kop, "id.own", "other private key")
	}
	r.after(c, o, s, nil, false, false, ext{})
}
