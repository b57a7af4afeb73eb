package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	offlocal "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	mt "github.com/iden3/go-iden3-core/merkletree"
)

// Replays behaviours of OffChain.tla (C17, C18).

type offSnap struct {
	c             int
	r, o          map[int]bool
	clr, rer, ror *mt.Hash
	state         *mt.Hash
}

type offIden struct {
	n             int
	id            core.ID
	clt, ret, rot *mt.MerkleTree
	c             int
	rs            map[int]bool
	roots         map[int]*mt.Hash // claims root by number of claims
	os            map[int]bool
	snaps         []*offSnap
	fs            *faultStorage
	ldb           string
	w             *writerhttp.IdenPubOffChainWriteHttp
}

type offRead struct {
	i, k int
	pd   *idenpuboffchain.PublicData
}

type offReplay struct {
	ids   map[int]*offIden
	local *offlocal.IdenPubOffChain
	rnd   *rand.Rand
	reads []offRead
	// what the server does with the next request
	alter func(b *idenpuboffchain.PublicDataBlobs) (int, []byte)
	asked []string
	base  string
}

var (
	offSrvOnce sync.Once
	offSrvURL  string
	offSrvMu   sync.Mutex
	offSrvCur  *offReplay
)

func offServer() string {
	offSrvOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		offSrvURL = "http://" + l.Addr().String()
		go func() {
			must(http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
				offSrvMu.Lock()
				r := offSrvCur
				offSrvMu.Unlock()
				st, body := r.serve(rq.URL.Path)
				w.Header().Set("Content-Type", "application/json")
				w.WriteHeader(st)
				_, _ = w.Write(body)
			})))
		}()
	})
	return offSrvURL
}

func init() {
	modules["offchain"] = func(c *Ctx) Replayer {
		r := &offReplay{ids: map[int]*offIden{}, rnd: rand.New(rand.NewSource(c.seed*7919 + int64(c.beh))),
			local: offlocal.NewIdenPubOffChain("http://local")}
		r.base = offServer() + []string{"", "/", "/pub", "/a/b/"}[c.beh%4]
		offSrvMu.Lock()
		offSrvCur = r
		offSrvMu.Unlock()
		return r
	}
}

func (r *offReplay) Close() {
	for _, o := range r.ids {
		o.fs.in.Close()
		if o.ldb != "" {
			os.RemoveAll(o.ldb)
		}
	}
}

func offOpen(c *Ctx, o *offIden) {
	switch {
	case strings.HasPrefix(c.fl, "level"):
		if o.ldb == "" {
			o.ldb = fmt.Sprintf("%s/off%d-%d", c.dir, c.beh, o.n)
		}
		s, err := db.NewLevelDbStorage(o.ldb, false)
		must(err)
		o.fs = newFaultStorage(s)
	default:
		o.fs = newFaultStorage(db.NewMemoryStorage())
	}
}

func (o *offIden) store(c *Ctx) db.Storage {
	if strings.HasSuffix(c.fl, "prefix") {
		return o.fs.WithPrefix([]byte("off"))
	}
	return o.fs
}

func memTree() *mt.MerkleTree {
	t, err := mt.NewMerkleTree(db.NewMemoryStorage(), 140)
	must(err)
	return t
}

func (r *offReplay) start(c *Ctx, n int, cap int) {
	o := &offIden{n: n, clt: memTree(), ret: memTree(), rot: memTree(), rs: map[int]bool{}, roots: map[int]*mt.Hash{}, os: map[int]bool{}}
	var g [27]byte
	g[0], g[1] = byte(n), 7
	o.id = core.NewID(core.TypeBJP0, g)
	offOpen(c, o)
	var err error
	guard(c, "off.panic", func() {
		cfg := &writerhttp.Config{CacheLen: byte(cap), Url: r.base}
		o.w, err = writerhttp.NewIdenPubOffChainWriteHttp(cfg, o.store(c))
		*cfg = writerhttp.Config{CacheLen: byte(cap)%7 + 2, Url: "http://changed"} // the caller's
	})
	must(err)
	r.ids[n] = o
	o.claim()
	o.snap()
}

func (o *offIden) claim() {
	o.c++
	var e mt.Entry
	e.Data[0][0], e.Data[0][1], e.Data[0][2] = byte(o.c), byte(o.c>>8), byte(o.n)
	e.Data[4][3] = byte(o.c)
	must(o.clt.AddEntry(&e))
	root := *o.clt.RootKey()
	o.roots[o.c] = &root
}

func (o *offIden) addRoot(c int) {
	if !o.os[c] {
		must(claims.AddLeafRootsTree(o.rot, o.roots[c]))
		o.os[c] = true
	}
}

func (o *offIden) snap() {
	cl, re, ro := *o.clt.RootKey(), *o.ret.RootKey(), *o.rot.RootKey()
	s := &offSnap{c: o.c, r: map[int]bool{}, o: map[int]bool{}, clr: &cl, rer: &re, ror: &ro}
	for k := range o.rs {
		s.r[k] = true
	}
	for k := range o.os {
		s.o[k] = true
	}
	st := refPoseidon(H(cl), H(re), H(ro))
	s.state = h2m(st)
	o.snaps = append(o.snaps, s)
}

func (o *offIden) data(k int) *idenpuboffchain.PublicData {
	s := o.snaps[k-1]
	st, cl, re, ro := *s.state, *s.clr, *s.rer, *s.ror
	return &idenpuboffchain.PublicData{IdenState: &st, ClaimsTreeRoot: &cl, RevocationsTreeRoot: &re, RevocationsTree: o.ret,
		RootsTreeRoot: &ro, RootsTree: o.rot}
}

func (o *offIden) dump(t *mt.MerkleTree, root *mt.Hash) []byte {
	var b bytes.Buffer
	must(t.DumpTree(&b, root))
	return b.Bytes()
}

func (o *offIden) blobs(k int) *idenpuboffchain.PublicDataBlobs {
	s := o.snaps[k-1]
	return &idenpuboffchain.PublicDataBlobs{IdenState: *s.state, ClaimsTreeRoot: *s.clr, RevocationsTreeRoot: *s.rer,
		RevocationsTree: o.dump(o.ret, s.rer), RootsTreeRoot: *s.ror, RootsTree: o.dump(o.rot, s.ror)}
}

func ints(x interface{}) (r []int) {
	for _, v := range arr(x) {
		r = append(r, num(v))
	}
	return
}

const offProbe = 14 // nonces asked for

// wrong compares public data with snapshot k of identity i.
func (r *offReplay) wrong(pd *idenpuboffchain.PublicData, i, k int) string {
	o := r.ids[i]
	s := o.snaps[k-1]
	if pd == nil || pd.IdenState == nil || pd.ClaimsTreeRoot == nil || pd.RevocationsTreeRoot == nil || pd.RootsTreeRoot == nil || pd.RevocationsTree == nil || pd.RootsTree == nil {
		return "incomplete"
	}
	if *pd.IdenState != *s.state {
		return fmt.Sprintf("the state is %v, published %v", pd.IdenState.Hex(), s.state.Hex())
	}
	if *pd.ClaimsTreeRoot != *s.clr || *pd.RevocationsTreeRoot != *s.rer || *pd.RootsTreeRoot != *s.ror {
		return "a root is not the one of the state"
	}
	if *pd.RevocationsTree.RootKey() != *s.rer || *pd.RootsTree.RootKey() != *s.ror {
		return "a tree does not have the root of the state"
	}
	ask := func(what string, t *mt.MerkleTree, root *mt.Hash, e *mt.Entry, want bool) string {
		hi, err := e.HIndex()
		must(err)
		hv, err := e.HValue()
		must(err)
		p, err := t.GenerateProof(hi, nil)
		if err != nil {
			return fmt.Sprintf("%s: no proof: %v", what, err)
		}
		if p.Existence != want {
			return fmt.Sprintf("%s: existence %v, expected %v", what, p.Existence, want)
		}
		if !mt.VerifyProof(root, p, hi, hv) {
			return fmt.Sprintf("%s: the proof does not verify", what)
		}
		_, err = t.GetDataByIndex(hi)
		if (err == nil) != want {
			return fmt.Sprintf("%s: lookup: %v, expected present=%v", what, err, want)
		}
		return ""
	}
	for n := 1; n <= offProbe; n++ {
		if d := ask(fmt.Sprintf("nonce %d", n), pd.RevocationsTree, s.rer, claims.NewLeafRevocationsTree(uint32(n), 0xffffffff).Entry(), s.r[n]); d != "" {
			return d
		}
	}
	from := 1
	if s.c > 12 {
		from = s.c - 8
	}
	for n := from; n <= s.c+1; n++ {
		if root := o.roots[n]; root != nil {
			if d := ask(fmt.Sprintf("root %d", n), pd.RootsTree, s.ror, claims.NewLeafRootsTree(*root).Entry(), s.o[n]); d != "" {
				return d
			}
		}
	}
	return ""
}

func (r *offReplay) Step(c *Ctx, s M) {
	if str(s["op"]) == "init" {
		for n, x := range ints(s["caps"]) {
			r.start(c, n+1, x)
		}
		return
	}
	if str(s["op"]) == "again" {
		for _, x := range r.reads {
			c.check(r.wrong(x.pd, x.i, x.k) == "", "off.later", "data read before changed: %s", r.wrong(x.pd, x.i, x.k))
		}
		return
	}
	i := num(s["i"])
	o := r.ids[i]
	switch str(s["op"]) {
	case "snap":
		for o.c < num(s["c"]) {
			o.claim()
		}
		for _, n := range ints(s["r"]) {
			if !o.rs[n] {
				must(claims.AddLeafRevocationsTree(o.ret, uint32(n), 0xffffffff))
				o.rs[n] = true
			}
		}
		for _, n := range ints(s["o"]) {
			o.addRoot(n)
		}
		o.snap()
	case "publish":
		r.publish(c, o, num(s["k"]), str(s["fault"]))
	case "burst":
		for x := 0; x < num(s["n"]); x++ {
			o.claim()
			o.addRoot(o.c)
			o.snap()
			r.publish(c, o, len(o.snaps), "none")
		}
	case "reload":
		if o.ldb != "" {
			o.fs.in.Close()
			offOpen(c, o)
		}
		var err error
		guard(c, "off.panic", func() { o.w, err = writerhttp.LoadIdenPubOffChainWriteHttp(o.store(c)) })
		c.check(err == nil, "off.load", "loading failed: %v", err)
		c.check(o.w.Url() == r.base, "off.load", "another address after loading: %s", o.w.Url())
		_, err = writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: 0, Url: r.base}, db.NewMemoryStorage())
		c.check(err != nil, "off.load", "a cache without room is accepted")
	case "get":
		r.get(c, o, num(s["q"]), num(s["exp"]), str(s["fault"]))
	case "all":
		for q, e := range ints(s["exp"]) {
			r.get(c, o, q, e, "light")
		}
	case "local":
		r.localGet(c, o, num(s["q"]), num(s["exp"]))
	case "fetch":
		r.fetch(c, o, s)
	default:
		internal("unknown step %v", s)
	}
}

func (r *offReplay) publish(c *Ctx, o *offIden, k int, fault string) {
	given := o.data(k)
	must(r.local.Publish(&o.id, given))
	scribbleData(given)
	var err error
	crashed := false
	if fault != "none" {
		o.fs.ctl.arm(fault, 1, false)
	}
	given = o.data(k)
	guard(c, "off.panic", func() { crashed = crashes(func() { err = o.w.Publish(&o.id, given) }) })
	scribbleData(given)
	fired := o.fs.ctl.fired
	o.fs.ctl.disarm()
	if fault == "none" {
		c.check(err == nil, "off.publish", "publishing failed: %v", err)
		return
	}
	if !fired {
		internal("the fault %s did not fire", fault)
	}
	c.bump("faults_" + fault)
	if crashed {
		o.w = nil
		return
	}
	c.check(err != nil, "off.publish.fault", "no error although the storage failed (%s)", fault)
}

func (o *offIden) query(q int) *mt.Hash {
	if q == 0 {
		return nil
	}
	if q > len(o.snaps) {
		return h2m(refPoseidon(H(*o.snaps[0].clr), H{1}))
	}
	st := *o.snaps[q-1].state
	return &st
}

func (r *offReplay) get(c *Ctx, o *offIden, q, exp int, fault string) {
	var b *idenpuboffchain.PublicDataBlobs
	var err error
	if fault != "none" && fault != "light" {
		o.fs.ctl.arm(fault, 1, false)
	}
	guard(c, "off.panic", func() { b, err = o.w.GetPublicData(o.query(q)) })
	c.check(o.w.Url() == r.base, "off.url", "the address has become %q", o.w.Url())
	o.fs.ctl.disarm()
	if fault != "none" && fault != "light" {
		c.check(err != nil, "off.get.fault", "no error although the storage failed (%s)", fault)
		c.check(err != writerhttp.ErrIdenStateNotFound, "off.get.fault", "a storage failure reported as an unknown state")
		return
	}
	if exp == 0 {
		c.check(err != nil, "off.notfound", "request %d: data served for a state that is not among the recent ones", q)
		if q != 0 {
			c.check(err == writerhttp.ErrIdenStateNotFound, "off.notfound", "request %d: %v instead of 'not found'", q, err)
		}
		c.bump("notfound")
		return
	}
	c.check(err == nil, "off.found", "request %d: state %d is among the recent ones: %v", q, exp, err)
	s := o.snaps[exp-1]
	c.check(b.IdenState == *s.state, "off.found", "request %d: another state than %d", q, exp)
	c.check(b.ClaimsTreeRoot == *s.clr && b.RevocationsTreeRoot == *s.rer && b.RootsTreeRoot == *s.ror, "off.data", "request %d: the roots are not the ones published", q)
	if fault == "light" {
		return
	}
	pd, err := idenpuboffchain.NewPublicDataFromBlobs(b)
	c.check(err == nil, "off.data", "request %d: the data served is not usable: %v", q, err)
	d := r.wrong(pd, o.n, exp)
	c.check(d == "", "off.data", "request %d: %s", q, d)
}

func (r *offReplay) keep(i, k int, pd *idenpuboffchain.PublicData) {
	if len(r.reads) < 6 {
		r.reads = append(r.reads, offRead{i, k, pd})
	} else {
		r.reads[r.rnd.Intn(6)] = offRead{i, k, pd}
	}
}

// scribbleData changes the hashes of public data.
func scribbleData(pd *idenpuboffchain.PublicData) {
	for i, h := range []*mt.Hash{pd.IdenState, pd.ClaimsTreeRoot, pd.RevocationsTreeRoot, pd.RootsTreeRoot} {
		*h = mt.Hash{byte(i + 1), 9}
	}
}

func (r *offReplay) localGet(c *Ctx, o *offIden, q, exp int) {
	var pd *idenpuboffchain.PublicData
	var err error
	guard(c, "off.panic", func() { pd, err = r.local.GetPublicData("http://local", &o.id, o.query(q)) })
	if exp == 0 {
		c.check(err != nil, "off.local", "data of a state that was not published")
	} else {
		c.check(err == nil, "off.local", "published data not found: %v", err)
		d := r.wrong(pd, o.n, exp)
		c.check(d == "", "off.local", "%s", d)
		r.keep(o.n, exp, pd)
		// another caller changes what it was given
		if pd2, err := r.local.GetPublicData("http://local", &o.id, o.query(q)); err == nil {
			scribbleData(pd2)
		}
		d = r.wrong(pd, o.n, exp)
		c.check(d == "", "off.local", "after another reader changed its copy: %s", d)
	}
	_, err = r.local.GetPublicData("http://other", &o.id, o.query(q))
	c.check(err != nil, "off.local", "data served for another address")
	var other core.ID
	other[5] = 9
	_, err = r.local.GetPublicData("http://local", &other, o.query(q))
	c.check(err != nil, "off.local", "data served for an unknown identity")
}

// serve answers one HTTP request.
func (r *offReplay) serve(path string) (int, []byte) {
	r.asked = append(r.asked, path)
	bad := func(n int, f string, a ...interface{}) (int, []byte) {
		b, _ := json.Marshal(map[string]string{"error": fmt.Sprintf(f, a...)})
		return n, b
	}
	pre := strings.TrimSuffix(strings.TrimPrefix(r.base, offSrvURL), "/")
	if !strings.HasPrefix(path, pre+"/") {
		return bad(404, "path %s", path)
	}
	parts := strings.Split(strings.TrimPrefix(path, pre+"/"), "/")
	for _, o := range r.ids {
		if o.id.String() != parts[0] {
			continue
		}
		var st *mt.Hash
		switch {
		case len(parts) == 2 && parts[1] == "laststate":
		case len(parts) == 3 && parts[1] == "state":
			st = &mt.Hash{}
			if err := st.UnmarshalText([]byte(parts[2])); err != nil {
				return bad(400, "%v", err)
			}
		default:
			return bad(404, "path %s", path)
		}
		b, err := o.w.GetPublicData(st)
		if err != nil {
			return bad(404, "%v", err)
		}
		if r.alter != nil {
			return r.alter(b)
		}
		js, err := json.Marshal(b)
		must(err)
		return 200, js
	}
	return bad(404, "identity %s", parts[0])
}

type dumpRec struct{ k, v []byte }

// records splits a tree dump; the last record is the root.
func records(b []byte) (rs []dumpRec) {
	for len(b) > 0 {
		kl, vl := int(b[0]), int(b[1])|int(b[2])<<8
		if len(b) < 3+kl+vl {
			vl = int(b[2]) | int(b[1])<<8
		}
		if len(b) < 3+kl+vl {
			internal("cannot parse a dump")
		}
		rs = append(rs, dumpRec{b[3 : 3+kl], b[3+kl : 3+kl+vl]})
		b = b[3+kl+vl:]
	}
	return
}

// pack is the inverse of records; the header is taken from a sample dump.
func pack(rs []dumpRec, big bool) []byte {
	var b bytes.Buffer
	for _, x := range rs {
		n := len(x.v)
		h := []byte{byte(len(x.k)), byte(n), byte(n >> 8)}
		if big {
			h[1], h[2] = h[2], h[1]
		}
		b.Write(h)
		b.Write(x.k)
		b.Write(x.v)
	}
	return b.Bytes()
}

func (r *offReplay) fetch(c *Ctx, o *offIden, s M) {
	q, k, alt := num(s["q"]), num(s["k"]), str(s["alt"])
	f, n := str(s["f"]), 0
	if s["n"] != nil {
		n = num(s["n"])
	}
	change := func(b *idenpuboffchain.PublicDataBlobs) {
		var blob *[]byte
		var root mt.Hash
		if f == "ret" {
			blob, root = &b.RevocationsTree, b.RevocationsTreeRoot
		} else if f == "rot" {
			blob, root = &b.RootsTree, b.RootsTreeRoot
		}
		hash := map[string]*mt.Hash{"state": &b.IdenState, "clr": &b.ClaimsTreeRoot, "rer": &b.RevocationsTreeRoot, "ror": &b.RootsTreeRoot}[f]
		var rs []dumpRec
		bigEnd := false
		if blob != nil {
			rs = records(*blob)
			bigEnd = !bytes.Equal(pack(rs, false), *blob)
			if bigEnd && !bytes.Equal(pack(rs, true), *blob) {
				internal("cannot repack a dump")
			}
			for i := range rs {
				rs[i] = dumpRec{append([]byte{}, rs[i].k...), append([]byte{}, rs[i].v...)}
			}
		}
		nodes := len(rs) - 1
		switch alt {
		case "none", "status", "body", "missing", "bad":
		case "mix":
			src := r.ids[num(s["j"])].blobs(num(s["m"]))
			for _, x := range arr(s["fs"]) {
				switch str(x) {
				case "state":
					b.IdenState = src.IdenState
				case "clr":
					b.ClaimsTreeRoot = src.ClaimsTreeRoot
				case "rer":
					b.RevocationsTreeRoot = src.RevocationsTreeRoot
				case "ror":
					b.RootsTreeRoot = src.RootsTreeRoot
				case "ret":
					b.RevocationsTree = src.RevocationsTree
				case "rot":
					b.RootsTree = src.RootsTree
				}
			}
		case "cut":
			d := 1 + n*len(*blob)/99
			if d > len(*blob) || n == 99 {
				d = len(*blob)
			}
			if n%7 == 3 { // exactly the root record
				last := rs[nodes]
				d = 3 + len(last.k) + len(last.v)
			}
			*blob = (*blob)[:len(*blob)-d]
		case "drop":
			if nodes > 0 {
				x := n % nodes
				*blob = pack(append(append([]dumpRec{}, rs[:x]...), rs[x+1:]...), bigEnd)
			}
		case "node":
			x := rs[n%len(rs)]
			t := x.v
			if r.rnd.Intn(4) == 0 {
				t = x.k
			}
			t[r.rnd.Intn(len(t))] ^= 1 << uint(r.rnd.Intn(8))
			*blob = pack(rs, bigEnd)
		case "extra":
			e := mt.NewNodeLeaf(claims.NewLeafRevocationsTree(uint32(1000+n), 0xffffffff).Entry())
			key, err := e.Key()
			must(err)
			x := dumpRec{key[:], e.Value()}
			if n%3 == 0 && nodes > 0 { // a second record for a key
				x.k = rs[n%nodes].k
			}
			if n%2 == 0 {
				rs = append([]dumpRec{x}, rs...)
			} else {
				rs = append(rs, x)
			}
			*blob = pack(rs, bigEnd)
		case "swapnodes":
			if nodes > 1 {
				x, y := n%nodes, (n+1+n/10)%nodes
				rs[x].v, rs[y].v = rs[y].v, rs[x].v
			}
			*blob = pack(rs, bigEnd)
		case "graft":
			so := r.ids[num(s["j"])]
			sb := so.blobs(num(s["m"]))
			src, sroot := sb.RevocationsTree, sb.RevocationsTreeRoot
			if f == "rot" {
				src, sroot = sb.RootsTree, sb.RootsTreeRoot
			}
			// the root node of the other tree under the key of the expected root
			var g, top []dumpRec
			for _, x := range records(src) {
				switch {
				case bytes.Equal(x.k, sroot[:]):
					top = append(top, dumpRec{root[:], x.v})
				case bytes.Equal(x.k, root[:]):
				default:
					g = append(g, x)
				}
			}
			g = append(top, g...)
			g[len(g)-1].v = root[:]
			*blob = pack(g, bigEnd)
		case "fold":
			var g []dumpRec
			key := mt.HashZero
			if n%2 == 0 {
				leaf := mt.NewNodeLeaf(claims.NewLeafRevocationsTree(uint32(n), 0xffffffff).Entry())
				k, err := leaf.Key()
				must(err)
				g, key = append(g, dumpRec{append([]byte{}, k[:]...), leaf.Value()}), *k
			}
			for d := 0; d < 20+2*n; d++ {
				l, r := key, key
				m := mt.NewNodeMiddle(&l, &r)
				k, err := m.Key()
				must(err)
				g, key = append(g, dumpRec{append([]byte{}, k[:]...), m.Value()}), *k
			}
			g = append(g, dumpRec{rs[nodes].k, append([]byte{}, key[:]...)})
			*blob = pack(g, bigEnd)
			if f == "ret" {
				b.RevocationsTreeRoot = key
			} else {
				b.RootsTreeRoot = key
			}
		case "rootrec":
			switch n % 5 {
			case 0:
				rs = rs[:nodes]
			case 1:
				rs[nodes].v[r.rnd.Intn(32)] ^= 1
			case 2:
				rs[nodes].v = rs[nodes].v[:31]
			case 3:
				rs[nodes].v = append(rs[nodes].v, 0)
			case 4:
				rs = append([]dumpRec{rs[nodes]}, rs...)
			}
			*blob = pack(rs, bigEnd)
		case "wrap": // the same number modulo the field
			*hash = mt.Hash(wrapField(H(*hash)))
		default:
			internal("alteration %s", alt)
		}
	}
	var pd *idenpuboffchain.PublicData
	var err error
	if str(s["via"]) == "blobs" {
		b := o.blobs(k)
		change(b)
		guard(c, "off.panic", func() { pd, err = idenpuboffchain.NewPublicDataFromBlobs(b) })
	} else {
		r.asked = nil
		r.alter = func(b *idenpuboffchain.PublicDataBlobs) (int, []byte) {
			change(b)
			js, err := json.Marshal(b)
			must(err)
			switch alt {
			case "status":
				st := []int{404, 500, 400, 503, 204, 403, 301, 429}[n%8]
				if st == 204 {
					return st, nil
				}
				if n%2 == 0 {
					return st, []byte(`{"error":"no"}`)
				}
				return st, js
			case "body":
				switch n % 8 {
				case 0:
					return 200, nil
				case 1:
					return 200, []byte("null")
				case 2:
					return 200, []byte("{}")
				case 3:
					return 200, []byte("[]")
				case 4:
					return 200, []byte(`"` + strings.Repeat("z", n) + `"`)
				default:
					return 200, js[:len(js)*n/100]
				}
			case "missing", "bad":
				m := M{}
				must(json.Unmarshal(js, &m))
				name := map[string]string{"state": "IdenState", "clr": "ClaimsTreeRoot", "rer": "RevocationsTreeRoot", "ror": "RootsTreeRoot", "ret": "RevocationsTree", "rot": "RootsTree"}[f]
				if _, ok := m[name]; !ok {
					internal("no field %s", name)
				}
				if alt == "missing" {
					delete(m, name)
				} else {
					h := str(m[name])
					m[name] = []interface{}{h[:len(h)-2], h + "00", h[:len(h)-1], h[2:len(h)-1] + "g", 7, nil, "", "0x", []int{1}, h + "zz"}[n%10]
				}
				js, err = json.Marshal(m)
				must(err)
			}
			return 200, js
		}
		guard(c, "off.panic", func() {
			pd, err = readerhttp.NewIdenPubOffChainHttp().GetPublicData(r.base, &o.id, o.query(q))
		})
		r.alter = nil
		if k != 0 {
			c.check(len(r.asked) == 1, "off.read", "%d requests %v", len(r.asked), r.asked)
		}
	}
	c.bump("alt_" + alt)
	// a credential can name any address
	for _, url := range []string{"", "/", " ", ":", "http://", "http://127.0.0.1:1", "\x7f", "http://[", "ftp://127.0.0.1:1/"} {
		guard(c, "off.url.panic", func() {
			pd, err := readerhttp.NewIdenPubOffChainHttp().GetPublicData(url, &o.id, o.query(q))
			c.check(err != nil && pd == nil, "off.url", "public data from %q", url)
		})
	}
	exp := str(s["exp"])
	switch exp {
	case "reject":
		c.check(err != nil, "off.accept."+alt, "altered data accepted: %v", s)
		c.bump("rejected")
	case "ok":
		c.check(err == nil, "off.reject."+alt, "right data rejected: %v (%v)", err, s)
		as := ints(s["as"])
		d := r.wrong(pd, as[0], as[1])
		c.check(d == "", "off.accept."+alt, "%s (%v)", d, s)
		r.keep(as[0], as[1], pd)
		c.bump("accepted")
	case "sound":
		if err == nil {
			as := ints(s["as"])
			d := ""
			guard(c, "off.accept.panic", func() { d = r.wrong(pd, as[0], as[1]) })
			c.check(d == "", "off.accept."+alt, "altered data accepted and wrong: %s (%v)", d, s)
		}
	}
}
