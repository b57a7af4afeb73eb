package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/iden3/go-iden3-core/db"
	mt "github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

var _ = poseidon.T

var fieldR, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

var keyTab []KeyRow
var hiTab []H

func keyTable() []KeyRow {
	if keyTab == nil {
		keyTab = loadKeys(os.Getenv("KEYTAB"))
		hiTab = make([]H, len(keyTab))
		for i := range keyTab {
			hiTab[i] = keyTab[i].hi()
			for b, x := range keyTab[i].Path {
				if refBit(hiTab[i], b) != x {
					internal("key table does not match the reference hash")
				}
			}
		}
	}
	return keyTab
}

// valElems gives the value part of an entry; values differ in few elements.
func valElems(v, rot int) (e [4]H) {
	pat := [][4]byte{{7, 7, 7, 7}, {7, 7, 7, 8}, {8, 7, 7, 7}, {7, 8, 7, 7}, {7, 7, 8, 7}, {0, 0, 0, 0}}
	p := pat[(v-1+rot)%len(pat)]
	for i := range e {
		e[i][0] = p[i]
		if p[i] != 0 {
			e[i][29] = p[i]
		}
	}
	return e
}

// treeEnv evaluates the specification's terms and builds real entries.
type treeEnv struct {
	rot  int
	memo map[string]H
}

func (e *treeEnv) data(k, v int) (d mt.Data) {
	keyTable()
	ie := keyTab[k-1].elems()
	ve := valElems(v, e.rot)
	for i := 0; i < 4; i++ {
		d[i] = mt.ElemBytes(ie[i])
		d[4+i] = mt.ElemBytes(ve[i])
	}
	return d
}
func (e *treeEnv) entry(k, v int) *mt.Entry { return &mt.Entry{Data: e.data(k, v)} }
func (e *treeEnv) hi(k int) H               { keyTable(); return hiTab[k-1] }
func (e *treeEnv) hv(v int) H {
	key := fmt.Sprintf("v%d", v)
	if h, ok := e.memo[key]; ok {
		return h
	}
	x := valElems(v, e.rot)
	h := refPoseidon(x[0], x[1], x[2], x[3])
	e.memo[key] = h
	return h
}
func opaque(i int) H { return refPoseidon(H{0xaa}, H{byte(i), byte(i >> 8)}) }

var midMemo = map[[2]H]H{}
var leafMemo = map[[2]H]H{}

func mMid(l, r H) H {
	if h, ok := midMemo[[2]H{l, r}]; ok {
		return h
	}
	h := refMiddle(l, r)
	midMemo[[2]H{l, r}] = h
	return h
}
func mLeaf(l, r H) H {
	if h, ok := leafMemo[[2]H{l, r}]; ok {
		return h
	}
	h := refLeaf(l, r)
	leafMemo[[2]H{l, r}] = h
	return h
}

func (e *treeEnv) term(x interface{}) H {
	t := obj(x)
	switch str(t["t"]) {
	case "E":
		return H{}
	case "L":
		return mLeaf(e.hi(num(t["k"])), e.hv(num(t["v"])))
	case "M":
		return mMid(e.term(t["l"]), e.term(t["r"]))
	case "O":
		return opaque(num(t["k"]))
	}
	internal("bad term %v", t)
	return H{}
}

// nodes collects the key and stored value of every node of a term.
func (e *treeEnv) nodes(x interface{}, out map[H][]byte) {
	t := obj(x)
	switch str(t["t"]) {
	case "L":
		d := e.data(num(t["k"]), num(t["v"]))
		b := d.Bytes()
		out[e.term(x)] = append([]byte{1}, b[:]...)
	case "M":
		l, r := e.term(t["l"]), e.term(t["r"])
		out[e.term(x)] = append(append([]byte{0}, l[:]...), r[:]...)
		e.nodes(t["l"], out)
		e.nodes(t["r"], out)
	}
}

func h2m(h H) *mt.Hash { m := mt.Hash(h); return &m }
func m2h(m *mt.Hash) H {
	if m == nil {
		return H{0xff, 0xff}
	}
	return H(*m)
}
func hx(h H) string { return hex.EncodeToString(h[:6]) }

type specProof struct {
	ex    bool
	sibs  []H
	auxK  int
	auxHi H
	auxHv H
}

func (e *treeEnv) proof(x interface{}) specProof {
	o := obj(x)
	p := specProof{ex: o["ex"].(bool)}
	for _, s := range arr(o["sibs"]) {
		p.sibs = append(p.sibs, e.term(s))
	}
	a := obj(o["aux"])
	p.auxK = num(a["k"])
	if p.auxK != 0 {
		p.auxHi, p.auxHv = e.hi(p.auxK), e.hv(num(a["v"]))
	}
	return p
}

// bytes is the documented encoding of a proof.
func (p specProof) bytes() []byte {
	b := make([]byte, 32)
	if !p.ex {
		b[0] |= 1
	}
	aux := p.auxK != 0 && !p.ex
	if aux {
		b[0] |= 2
	}
	b[1] = byte(len(p.sibs))
	for i, s := range p.sibs {
		if s != (H{}) {
			b[31-i/8] |= 1 << uint(i%8)
		}
	}
	for _, s := range p.sibs {
		if s != (H{}) {
			b = append(b, s[:]...)
		}
	}
	if aux {
		b = append(append(b, p.auxHi[:]...), p.auxHv[:]...)
	}
	return b
}

// real builds the code's proof object.
func (p specProof) real(c *Ctx) *mt.Proof {
	r, err := mt.NewProofFromBytes(p.bytes())
	c.check(err == nil, "proof.decode", "well formed proof refused: %v (%x)", err, p.bytes()[:32])
	if p.ex && p.auxK != 0 {
		r.NodeAux = &mt.NodeAux{HIndex: h2m(p.auxHi), HValue: h2m(p.auxHv)}
	}
	return r
}

// sameProof compares the code's proof with the specification's.
func (c *Ctx) sameProof(what string, got *mt.Proof, p specProof) {
	c.check(got.Existence == p.ex, "proof.existence", "%s: existence %v, specified %v", what, got.Existence, p.ex)
	sibs := mt.SiblingsFromProof(got)
	ok := len(sibs) == len(p.sibs)
	for i := range p.sibs {
		ok = ok && m2h(sibs[i]) == p.sibs[i]
	}
	c.check(ok, "proof.siblings", "%s: siblings %v, specified %d", what, len(sibs), len(p.sibs))
	if p.auxK == 0 {
		c.check(got.NodeAux == nil, "proof.aux", "%s: unexpected neighbour leaf", what)
	} else {
		c.check(got.NodeAux != nil && m2h(got.NodeAux.HIndex) == p.auxHi && m2h(got.NodeAux.HValue) == p.auxHv,
			"proof.aux", "%s: wrong or missing neighbour leaf", what)
	}
	c.check(bytes.Equal(got.Bytes(), p.bytes()), "proof.bytes", "%s: encoding %x, specified %x", what, got.Bytes()[:32], p.bytes()[:32])
	// byte and JSON round trips
	again, err := mt.NewProofFromBytes(got.Bytes())
	c.check(err == nil && bytes.Equal(again.Bytes(), p.bytes()) && again.Existence == p.ex, "proof.roundtrip", "%s: bytes do not round trip (%v)", what, err)
	js, err := json.Marshal(got)
	c.check(err == nil, "proof.roundtrip", "%s: cannot marshal: %v", what, err)
	var pj mt.Proof
	err = json.Unmarshal(js, &pj)
	c.check(err == nil && bytes.Equal(pj.Bytes(), p.bytes()), "proof.roundtrip", "%s: JSON does not round trip (%v)", what, err)
	for _, lv := range []int{len(p.sibs), len(p.sibs) + 3} {
		for _, sb := range again.AllSiblings() {
			*sb = mt.Hash{6, 6, 6}
		}
		c.zeroKept("a sibling of a proof")
		cs := got.AllSiblingsCircom(lv)
		ok := len(cs) == lv+1
		for i := range cs {
			w := H{}
			if i < len(p.sibs) {
				w = p.sibs[i]
			}
			ok = ok && cs[i].Cmp(hToBig(w)) == 0
		}
		c.check(ok, "proof.circom", "%s: circuit siblings differ", what)
	}
	cs := got.AllSiblingsCircom(0)
	c.check(len(cs) == len(p.sibs)+1, "proof.circom", "%s: %d circuit siblings for a proof of depth %d", what, len(cs), len(p.sibs))
}

type treeReplay struct {
	treeEnv
	n     int
	base  db.Storage // the disk
	fs    *faultStorage
	t     *mt.MerkleTree
	max   int
	roots []H
	snaps []*mt.MerkleTree
	close []func()
	dbdir string
	raw   db.Storage // the open backend
}

func (c *Ctx) newStorage(name string) (db.Storage, string, func()) {
	switch {
	case strings.HasPrefix(c.fl, "level"):
		d := filepath.Join(c.dir, fmt.Sprintf("ldb-%d-%s", c.beh, name))
		s, err := db.NewLevelDbStorage(d, false)
		must(err)
		return s, d, func() { os.RemoveAll(d) }
	default:
		return db.NewMemoryStorage(), "", func() {}
	}
}

func (r *treeReplay) fresh(c *Ctx) {
	if r.raw != nil {
		r.raw.Close()
	}
	s, d, cl := c.newStorage(fmt.Sprint(r.n))
	r.n++
	r.dbdir = d
	r.raw = s
	r.close = append(r.close, cl)
	if strings.HasSuffix(c.fl, "prefix") {
		// neighbours with confusable prefixes share the storage
		s = s.WithPrefix([]byte("tree")).WithPrefix([]byte("claims:"))
	}
	r.base = s
	r.fs = newFaultStorage(s)
	t, err := mt.NewMerkleTree(r.fs, r.max)
	c.check(err == nil, "tree.new", "cannot create a tree: %v", err)
	r.t = t
	r.roots = []H{{}}
	r.snaps = nil
	c.check(m2h(t.RootKey()) == H{}, "tree.root", "new tree has root %v", t.RootKey())
}

func (r *treeReplay) Close() {
	r.raw.Close()
	for _, f := range r.close {
		f()
	}
}

func init() {
	modules["tree"] = func(c *Ctx) Replayer {
		r := &treeReplay{treeEnv: treeEnv{rot: int(c.seed) + c.beh, memo: map[string]H{}}, max: []int{140, 140, 240, 256, 257, 1000}[(int(c.seed)+c.beh)%6]}
		if v := os.Getenv("MAXLEVELS"); v != "" && v != "140" { // 140: more than any path needs
			fmt.Sscan(v, &r.max)
		}
		r.fresh(c)
		return r
	}
}

func (r *treeReplay) addRes(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == mt.ErrEntryIndexAlreadyExists:
		return "dup"
	case err == mt.ErrReachedMaxLevel:
		return "max"
	case err == mt.ErrNotWritable:
		return "notwritable"
	}
	return "err"
}

// light checks root and exact contents of a tree.
func (r *treeReplay) light(c *Ctx, what string, t *mt.MerkleTree, exp M) {
	root := r.term(exp["root"])
	c.check(m2h(t.RootKey()) == root, "tree.root", "%s: root %v, specified %v", what, t.RootKey(), hx(root))
}

// content checks that a walk finds exactly the specified nodes and entries.
func (r *treeReplay) content(c *Ctx, what string, t *mt.MerkleTree, root *mt.Hash, exp M) {
	nodes := map[H][]byte{}
	r.nodes(exp["root"], nodes)
	seen := map[H]bool{}
	var bad string
	err := t.Walk(root, func(n *mt.Node) {
		k, err := n.Key()
		if err != nil {
			bad = err.Error()
			return
		}
		if n.Type == mt.NodeTypeEmpty {
			*k = mt.Hash{9, 9, 9}
			return
		}
		v, ok := nodes[m2h(k)]
		if !ok || !bytes.Equal(v, n.Value()) {
			bad = fmt.Sprintf("unspecified node %v", k)
		}
		seen[m2h(k)] = true
		*k = mt.Hash{9, 9, 9} // a key given out is the receiver's
	})
	c.check(err == nil && bad == "", "tree.walk", "%s: walk: %v %s", what, err, bad)
	c.check(len(seen) == len(nodes), "tree.walk", "%s: walk saw %d nodes, specified %d", what, len(seen), len(nodes))
	c.zeroKept("a key of a node")
	r.graph(c, what, t, root, nodes)
	cl, err := t.DumpClaims(root)
	c.check(err == nil, "tree.walk", "%s: DumpClaims: %v", what, err)
	want := map[string]bool{}
	for _, kv := range arr(exp["map"]) {
		d := r.data(num(obj(kv)["k"]), num(obj(kv)["v"]))
		b := d.Bytes()
		want["0x"+hex.EncodeToString(b[:])] = true
	}
	ok := len(cl) == len(want)
	for _, x := range cl {
		ok = ok && want[x]
	}
	c.check(ok, "tree.entries", "%s: DumpClaims gives %d entries, specified %d", what, len(cl), len(want))
}

// zeroKept checks that the hash of nothing is still what it was.
func (c *Ctx) zeroKept(what string) {
	if mt.HashZero != (mt.Hash{}) {
		mt.HashZero = mt.Hash{}
		c.check(false, "tree.zero", "HashZero changed with %s", what)
	}
}

var emptyName = regexp.MustCompile("empty[0-9]+")

// graph checks the drawing of the tree: the specified nodes and links, and no others.
func (r *treeReplay) graph(c *Ctx, what string, t *mt.MerkleTree, root *mt.Hash, nodes map[H][]byte) {
	var want []string
	name := func(b []byte) string {
		var h mt.Hash
		copy(h[:], b)
		if h != mt.HashZero {
			return "\"" + h.String() + "\""
		}
		want = append(want, "\"empty\" [style=dashed,label=0];")
		return "\"empty\""
	}
	for k, v := range nodes {
		if mt.NodeType(v[0]) == mt.NodeTypeLeaf {
			want = append(want, name(k[:])+" [style=filled];")
		} else {
			want = append(want, fmt.Sprintf("%s -> {%s %s}", name(k[:]), name(v[1:33]), name(v[33:65])))
		}
	}
	sort.Strings(want)
	check := func(how, out string) {
		var got []string
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "\"") {
				got = append(got, emptyName.ReplaceAllString(l, "empty"))
			}
		}
		sort.Strings(got)
		c.check(strings.Join(got, "\n") == strings.Join(want, "\n"), "tree.graph", "%s: %s draws %d lines, specified %d, or others", what, how, len(got), len(want))
	}
	var w bytes.Buffer
	err := t.GraphViz(&w, root)
	c.check(err == nil, "tree.graph", "%s: GraphViz: %v", what, err)
	check("GraphViz", w.String())
	if c.step%8 == 0 {
		check("PrintGraphViz", stdout(func() { err = t.PrintGraphViz(root) }))
		c.check(err == nil, "tree.graph", "%s: PrintGraphViz: %v", what, err)
	}
}

// stdout is what f prints.
func stdout(f func()) string {
	was := os.Stdout
	pr, pw, err := os.Pipe()
	must(err)
	os.Stdout = pw
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(pr)
		pr.Close()
		ch <- string(b)
	}()
	func() {
		defer func() { os.Stdout = was; pw.Close() }()
		f()
	}()
	return <-ch
}

// probe checks everything a reader can ask at a root (nil: the live one).
func (r *treeReplay) probe(c *Ctx, what string, t *mt.MerkleTree, root *mt.Hash, exp M) {
	rootH := r.term(exp["root"])
	if root == nil {
		r.light(c, what, t, exp)
	}
	lt := t
	if root != nil {
		s, err := t.Snapshot(root)
		c.check(err == nil, "tree.snapshot", "%s: snapshot: %v", what, err)
		lt = s
		r.light(c, what, s, exp)
	}
	for _, x := range arr(exp["keys"]) {
		ks := obj(x)
		k := num(ks["k"])
		found := ks["found"].(bool)
		w := fmt.Sprintf("%s key %d", what, k)
		d, err := lt.GetDataByIndex(h2m(r.hi(k)))
		if found {
			v := num(ks["v"])
			exp := r.data(k, v)
			c.check(err == nil && *d == exp, "tree.get", "%s: lookup gives %v, %v", w, d, err)
			for o := 1; o <= 6; o++ {
				ee := r.entry(k, o)
				err := t.EntryExists(ee, root)
				if o == v {
					c.check(err == nil, "tree.exists", "%s: stored entry reported missing: %v", w, err)
				} else {
					c.check(err != nil, "tree.exists", "%s: entry with another value reported present", w)
					c.check(err == mt.ErrEntryDataNotMatch, "tree.exists", "%s: other value: %v", w, err)
				}
			}
		} else {
			c.check(err == mt.ErrEntryIndexNotFound, "tree.get", "%s: absent key: %v, %v", w, d, err)
			err := t.EntryExists(r.entry(k, 1), root)
			c.check(err == mt.ErrEntryIndexNotFound, "tree.exists", "%s: absent entry: %v", w, err)
		}
		p := r.proof(ks["proof"])
		got, err := t.GenerateProof(h2m(r.hi(k)), root)
		c.check(err == nil, "proof.generate", "%s: %v", w, err)
		c.sameProof(w, got, p)
		v := 1
		if found {
			v = num(ks["v"])
		}
		c.check(mt.VerifyProof(h2m(rootH), got, h2m(r.hi(k)), h2m(r.hv(v))), "proof.verify", "%s: genuine proof does not verify", w)
		rf, err := mt.RootFromProof(got, h2m(r.hi(k)), h2m(r.hv(v)))
		c.check(err == nil && m2h(rf) == rootH, "proof.rootfrom", "%s: root from proof %v", w, rf)
		if err == nil {
			*rf = mt.Hash{8, 8, 8}
			c.zeroKept("a root made from a proof")
		}
		if found {
			c.check(!mt.VerifyProof(h2m(rootH), got, h2m(r.hi(k)), h2m(r.hv(v%6+1))), "proof.sound", "%s: proof verifies for another value", w)
		}
	}
	r.content(c, what, t, root, exp)
}

func (r *treeReplay) commitRoot(exp M) {
	h := r.term(exp["root"])
	for _, x := range r.roots {
		if x == h {
			return
		}
	}
	r.roots = append(r.roots, h)
}

func (r *treeReplay) reopen(c *Ctx, what string, exp ...M) int {
	reSnap := false
	if r.dbdir != "" && c.step%3 == 0 && !strings.HasSuffix(c.fl, "prefix") {
		r.raw.Close()
		s, err := db.NewLevelDbStorage(r.dbdir, true)
		must(err)
		r.raw = s
		r.base = s
		reSnap = true
		r.fs = newFaultStorage(s)
	}
	t, err := mt.NewMerkleTree(r.fs, r.max)
	c.check(err == nil, "tree.reopen", "%s: cannot reopen: %v", what, err)
	r.t = t
	if reSnap { // the old ones read a closed database
		for i := range r.snaps {
			sn, err := t.Snapshot(r.snaps[i].RootKey())
			c.check(err == nil, "tree.snapshot", "%s: snapshot of an old root: %v", what, err)
			r.snaps[i] = sn
		}
	}
	for i, e := range exp {
		if m2h(t.RootKey()) == r.term(e["root"]) {
			return i
		}
	}
	c.check(false, "tree.reopen", "%s: reopened tree has root %v", what, t.RootKey())
	return -1
}

func (r *treeReplay) Step(c *Ctx, s M) {
	switch str(s["op"]) {
	case "add":
		err := r.t.AddEntry(r.entry(num(s["k"]), num(s["v"])))
		got := r.addRes(err)
		c.check(got == str(s["res"]), "tree.add", "insertion of %v=%v: %s (%v), specified %s", s["k"], s["v"], got, err, s["res"])
		r.light(c, "after add", r.t, obj(s["after"]))
		if got == "ok" {
			r.commitRoot(obj(s["after"]))
		}
	case "addbad":
		e := r.entry(num(s["k"]), 1)
		el := num(s["elem"])
		bad := new(big.Int).Set(fieldR)
		if el%2 == 1 {
			bad = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		}
		e.Data[el] = mt.ElemBytes(bigToH(bad))
		err := r.t.AddEntry(e)
		c.check(err != nil, "tree.addbad", "entry with element %d outside the field accepted", el)
		r.light(c, "after refused add", r.t, obj(s["after"]))
	case "probe":
		at := num(s["at"])
		if at == 0 {
			r.probe(c, "live", r.t, nil, obj(s["exp"]))
		} else {
			root := r.term(obj(s["exp"])["root"])
			r.probe(c, fmt.Sprintf("root %d", at), r.t, h2m(root), obj(s["exp"]))
		}
	case "unknown":
		for i, h := range []H{{1}, opaque(3), {0xff, 0xff}} {
			_, err := r.t.Snapshot(h2m(h))
			c.check(err != nil, "tree.unknown", "snapshot of a root that never existed (%d)", i)
			_, err = r.t.GenerateProof(h2m(r.hi(1)), h2m(h))
			c.check(err != nil, "tree.unknown", "proof for a root that never existed (%d)", i)
			err = r.t.EntryExists(r.entry(1, 1), h2m(h))
			c.check(err != nil, "tree.unknown", "existence check at a root that never existed (%d)", i)
			err = r.t.Walk(h2m(h), func(*mt.Node) {})
			c.check(err != nil, "tree.unknown", "walk of a root that never existed (%d)", i)
			var w bytes.Buffer
			c.check(r.t.DumpTree(&w, h2m(h)) != nil, "tree.unknown", "dump of a root that never existed (%d)", i)
		}
		r.light(c, "after unknown", r.t, obj(s["exp"]))
	case "snap":
		root := r.term(obj(s["exp"])["root"])
		given := h2m(root)
		sn, err := r.t.Snapshot(given)
		c.check(err == nil, "tree.snapshot", "snapshot: %v", err)
		*given = mt.Hash{1, 2, 3} // the caller's
		if err == nil {
			was := m2h(sn.RootKey())
			*sn.RootKey() = mt.Hash{4, 5, 6}
			c.check(m2h(sn.RootKey()) == was, "tree.root", "the root of a snapshot changed with the hash it gave")
		}
		was := m2h(r.t.RootKey())
		*r.t.RootKey() = mt.Hash{7, 8, 9}
		c.check(m2h(r.t.RootKey()) == was, "tree.root", "the root of the tree changed with the hash it gave")
		r.light(c, "snapshot", sn, obj(s["exp"]))
		r.snaps = append(r.snaps, sn)
	case "probesnap":
		if i := num(s["snap"]); i <= len(r.snaps) {
			r.probe(c, fmt.Sprintf("snapshot %d", i), r.snaps[i-1], nil, obj(s["exp"]))
		}
	case "addsnap":
		i := num(s["snap"])
		if i > len(r.snaps) {
			return
		}
		err := r.snaps[i-1].AddEntry(r.entry(num(s["k"]), num(s["v"])))
		c.check(err == mt.ErrNotWritable, "tree.snapwrite", "insertion into a snapshot: %v", err)
		err = r.snaps[i-1].ImportDumpedClaims([]string{hex.EncodeToString(r.entry(num(s["k"]), num(s["v"])).Bytes())})
		c.check(err != nil, "tree.snapwrite", "import into a snapshot: %v", err)
		var w bytes.Buffer
		c.check(r.t.DumpTree(&w, nil) == nil, "dump.tree", "DumpTree failed")
		err = r.snaps[i-1].ImportTree(&w)
		c.check(err != nil, "tree.snapwrite", "import of a tree into a snapshot: %v", err)
		r.light(c, "snapshot", r.snaps[i-1], obj(s["exp"]))
		r.light(c, "live", r.t, obj(s["after"]))
		r.content(c, "snapshot", r.snaps[i-1], nil, obj(s["exp"]))
	case "reopen":
		r.reopen(c, "reopen", obj(s["after"]))
	case "openfault":
		// each call of the opening fails, once or from then on
		for _, k := range []string{"get", "newtx", "txget", "commit"} {
			for i := 0; i < 12; i++ {
				nth, sticky := i/2+1, i%2 == 0
				r.fs.ctl.arm(k, nth, sticky)
				t, err := mt.NewMerkleTree(r.fs, r.max)
				fired := r.fs.ctl.fired
				r.fs.ctl.disarm()
				if !fired {
					break
				}
				c.check(err != nil || !(sticky && nth == 1), "tree.openfault", "opening during a storage %s fault succeeded with root %v", k, rootOrNil(t))
				// what can do without the answer has to be right without it
				if err == nil {
					c.check(m2h(t.RootKey()) == r.term(obj(s["after"])["root"]), "tree.openfault", "opened with root %v although %s %d failed", rootOrNil(t), k, nth)
					r.light(c, "opened with fault", t, obj(s["after"]))
				}
				r.reopen(c, "after open fault", obj(s["after"]))
			}
		}
	case "addfault":
		k, v := num(s["k"]), num(s["v"])
		before, done := obj(s["before"]), obj(s["done"])
		nth := num(s["nth"])
		r.fs.ctl.arm(str(s["where"]), nth, false)
		err := r.t.AddEntry(r.entry(k, v))
		fired := r.fs.ctl.fired
		r.fs.ctl.disarm()
		if err == nil {
			if fired && str(s["where"]) == "commit" {
				c.check(false, "tree.addfault", "insertion reported success although its commit failed")
			}
			r.light(c, "add despite fault", r.t, done)
			r.commitRoot(done)
			r.reopen(c, "after add", done)
			return
		}
		c.check(fired, "tree.add", "insertion failed without a fault: %v", err)
		c.bump("faults_injected")
		r.light(c, "after failed add", r.t, before)
		r.content(c, "after failed add", r.t, nil, before)
		if c.step%2 == 0 {
			r.reopen(c, "after failed add", before)
		}
		err = r.t.AddEntry(r.entry(k, v))
		c.check(err == nil, "tree.retry", "retry after a failed insertion: %v", err)
		r.light(c, "after retry", r.t, done)
		r.commitRoot(done)
		r.reopen(c, "after retry", done)
	case "addcrash":
		k, v := num(s["k"]), num(s["v"])
		before, done := obj(s["before"]), obj(s["done"])
		r.fs.ctl.arm("crash-"+str(s["where"]), num(s["nth"]), false)
		var err error
		crashed := crashes(func() { err = r.t.AddEntry(r.entry(k, v)) })
		r.fs.ctl.disarm()
		if !crashed {
			c.check(err == nil, "tree.add", "insertion: %v", err)
			r.light(c, "after add", r.t, done)
			r.commitRoot(done)
			return
		}
		c.bump("crashes_injected")
		st := []M{before, done}
		i := r.reopen(c, "after crash", st...)
		r.content(c, "after crash", r.t, nil, st[i])
		err = r.t.AddEntry(r.entry(k, v))
		if i == 0 {
			c.check(err == nil, "tree.retry", "retry after a crash: %v", err)
		} else {
			c.check(err == mt.ErrEntryIndexAlreadyExists, "tree.retry", "repeat after a crash: %v", err)
		}
		r.light(c, "after retry", r.t, done)
		r.commitRoot(done)
	case "import":
		r.imp(c, s)
	case "importbad":
		r.importBad(c, s)
	case "forge":
		for i, x := range arr(s["tries"]) {
			f := obj(x)
			p := r.proof(f["p"])
			rp := p.real(c)
			got := mt.VerifyProof(h2m(r.term(f["root"])), rp, h2m(r.hi(num(f["k"]))), h2m(r.hv(num(f["v"]))))
			want := f["verifies"].(bool)
			sig := "proof.sound"
			if want {
				sig = "proof.verify"
			}
			c.check(got == want, sig, "altered proof %d: verifies %v, specified %v (%v)", i, got, want, x)
		}
	case "synth":
		r.synth(c, s)
	case "decode":
		r.decode(c, s)
	case "deep":
		r.deep(c, s)
	default:
		internal("tree: unknown op %v", s["op"])
	}
}

func rootOrNil(t *mt.MerkleTree) string {
	if t == nil {
		return "nil"
	}
	return t.RootKey().Hex()
}

func kvRec(k, v []byte) []byte {
	b := []byte{byte(len(k)), 0, 0}
	b[1], b[2] = byte(len(v)), byte(len(v)>>8) // length of the value, little-endian
	return append(append(b, k...), v...)
}

// imp dumps a root, imports it into a fresh tree and goes on with that one.
func (r *treeReplay) imp(c *Ctx, s M) {
	exp := obj(s["exp"])
	root := h2m(r.term(exp["root"]))
	old := r.t
	if str(s["kind"]) == "claims" {
		cl, err := old.DumpClaims(root)
		c.check(err == nil, "dump.claims", "DumpClaims: %v", err)
		var w bytes.Buffer
		c.check(old.DumpClaimsIoWriter(&w, root) == nil, "dump.claims", "DumpClaimsIoWriter failed")
		var viaW []string
		err = json.Unmarshal(w.Bytes(), &viaW)
		c.check(err == nil, "dump.claims", "the written entry dump is not JSON: %v", err)
		c.check(fmt.Sprint(viaW) == fmt.Sprint(cl), "dump.claims", "the two entry dumps differ: %d and %d entries", len(viaW), len(cl))
		r.dumpFails(c, "entry dump", w.Len(), func(w io.Writer) error { return old.DumpClaimsIoWriter(w, root) })
		r.fresh(c)
		err = r.t.ImportDumpedClaims(cl)
		c.check(err == nil, "import.claims", "ImportDumpedClaims: %v", err)
		c.check(m2h(r.t.RootKey()) == m2h(root), "import.root", "imported entries give root %v", r.t.RootKey())
	} else {
		var w bytes.Buffer
		live := m2h(old.RootKey()) == m2h(root)
		arg := root
		if live && c.step%2 == 0 {
			arg = nil
		}
		err := old.DumpTree(&w, arg)
		c.check(err == nil, "dump.tree", "DumpTree: %v", err)
		r.dumpFails(c, "node dump", w.Len(), func(w io.Writer) error { return old.DumpTree(w, arg) })
		r.fresh(c)
		err = r.t.ImportTree(bytes.NewReader(w.Bytes()))
		c.check(err == nil, "import.tree", "ImportTree: %v", err)
		c.check(m2h(r.t.RootKey()) == m2h(root), "import.root", "imported tree has root %v", r.t.RootKey())
	}
	r.probe(c, "imported", r.t, nil, exp)
	t, err := mt.NewMerkleTree(r.fs, r.max)
	c.check(err == nil, "import.reopen", "reopen after import: %v", err)
	c.check(m2h(t.RootKey()) == m2h(root), "import.reopen", "reopened after import with root %v", t.RootKey())
	r.t = t
	r.probe(c, "imported and reopened", r.t, nil, exp)
	r.commitRoot(exp)
}

// shortWriter takes the first left bytes only.
type shortWriter struct{ left int }

func (w *shortWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("no space left")
	}
	w.left -= len(b)
	return len(b), nil
}

// dumpFails dumps to writers that take less than the size of the dump, and from
// a storage that fails: both have to be reported.
func (r *treeReplay) dumpFails(c *Ctx, what string, size int, dump func(io.Writer) error) {
	for _, n := range []int{0, 1, size / 3, size / 2, size - 1} {
		if n < size {
			c.check(dump(&shortWriter{n}) != nil, "dump.error", "%s of %d bytes to a writer that took %d reported as done", what, size, n)
		}
	}
	for k := 1; k <= 3; k++ {
		r.fs.ctl.arm("get", k*k, false)
		var w bytes.Buffer
		err := dump(&w)
		fired := r.fs.ctl.fired
		r.fs.ctl.disarm()
		if fired {
			c.check(err != nil, "dump.error", "%s with a read error (read %d) reported as done", what, k*k)
			c.bump("tree.dumpfault")
		}
	}
}

func (r *treeReplay) importBad(c *Ctx, s M) {
	after := obj(s["after"])
	var w bytes.Buffer
	at := num(s["at"])
	if at > len(r.roots) {
		return
	}
	root := r.roots[at-1]
	c.check(r.t.DumpTree(&w, h2m(root)) == nil, "dump.tree", "DumpTree failed")
	full := w.Bytes()
	// record boundaries
	var cuts []int
	for i := 0; i < len(full); {
		cuts = append(cuts, i)
		i += 3 + int(full[i]) + int(full[i+1]) + int(full[i+2])<<8
	}
	var bad []byte
	cut := num(s["cut"])
	what := ""
	last := cuts[len(cuts)-1]
	switch cut {
	case 0:
		bad, what = nil, "empty dump"
	case 1:
		bad, what = full[:last], "dump without its root record"
	case 2:
		bad, what = full[:len(full)-1], "dump cut by one byte"
	case 3:
		bad, what = full[:last+2], "dump cut in a record header"
	case 4:
		bad, what = full[:last+5], "dump cut in a record key"
	case 5:
		bad, what = full[:len(full)/2], "half a dump"
	case 6:
		bad, what = append(append([]byte{}, full...), 5, 1), "dump with a trailing partial record"
	case 7:
		if len(cuts) < 2 {
			return
		}
		bad, what = append(append([]byte{}, full[:cuts[0]]...), full[cuts[1]:]...), "dump without its top node"
	case 8:
		bad, what = append(append([]byte{}, full[:last]...), kvRec([]byte("currentroot"), []byte{1, 2, 3})...), "dump with a short root"
	case 9:
		bad, what = append(append([]byte{}, full[:last]...), kvRec([]byte("currentroot"), append([]byte{9}, make([]byte, 31)...))...), "dump with a root it does not contain"
	}
	// (a) into an empty tree
	ns, _, cl := c.newStorage(fmt.Sprintf("bad%d", c.step))
	defer cl()
	defer ns.Close()
	f := newFaultStorage(ns)
	e, err := mt.NewMerkleTree(f, r.max)
	must(err)
	err = e.ImportTree(bytes.NewReader(bad))
	c.check(err != nil, "import.malformed", "%s accepted, root %v", what, e.RootKey())
	c.check(m2h(e.RootKey()) == H{}, "import.malformed", "%s refused but the root changed", what)
	err = e.AddEntry(r.entry(1, 1))
	c.check(err == nil, "import.malformed", "tree unusable after refusing a %s: %v", what, err)
	e2, err := mt.NewMerkleTree(f, r.max)
	c.check(err == nil && m2h(e2.RootKey()) == mLeaf(r.hi(1), r.hv(1)), "import.malformed", "tree damaged after refusing a %s", what)
	// (b) into a copy of the live tree
	if cut <= 6 {
		err = r.t.ImportTree(bytes.NewReader(bad))
		c.check(err != nil, "import.malformed", "%s accepted by a non-empty tree", what)
		r.light(c, "after refused import", r.t, after)
		r.content(c, "after refused import", r.t, nil, after)
		r.reopen(c, "after refused import", after)
	}
	// malformed entry dumps
	for i, x := range []string{"0x12", "zz", "0x" + strings.Repeat("zz", 256), strings.Repeat("00", 255), "0x" + strings.Repeat("ff", 256)} {
		err := r.t.ImportDumpedClaims([]string{x})
		c.check(err != nil, "import.malformed", "malformed entry %d accepted", i)
		r.light(c, "after refused entry", r.t, after)
		good := &mt.Entry{}
		for j := range good.Data {
			good.Data[j][31], good.Data[j][1], good.Data[j][2] = 0, byte(c.step), byte(i+1)
		}
		gb, _ := good.MarshalText()
		err = r.t.ImportDumpedClaims([]string{string(gb), x})
		c.check(err != nil, "import.malformed", "malformed entry %d accepted behind a good one", i)
		r.light(c, "after an entry dump refused for its last entry", r.t, after)
		// one index twice, with the same value or with another
		other := &mt.Entry{Data: good.Data}
		other.Data[7][3] ^= byte(i & 1)
		ob, _ := other.MarshalText()
		err = r.t.ImportDumpedClaims([]string{string(gb), string(ob)})
		c.check(err != nil, "import.malformed", "entry dump with one index twice accepted")
		r.light(c, "after an entry dump refused for an index it has twice", r.t, after)
		c.check(r.t.EntryExists(good, nil) == mt.ErrEntryIndexNotFound, "import.malformed", "an entry of a refused dump is in the tree")
	}
	r.importFails(c, h2m(root), full)
}

// importFails imports the dumps of a root into empty trees, on a storage that
// fails or loses its process.
func (r *treeReplay) importFails(c *Ctx, root *mt.Hash, full []byte) {
	cl, err := r.t.DumpClaims(root)
	c.check(err == nil, "dump.claims", "DumpClaims: %v", err)
	for i, what := range []string{"entries", "nodes"} {
		imp := func(t *mt.MerkleTree) error {
			if i == 0 {
				return t.ImportDumpedClaims(cl)
			}
			return t.ImportTree(iotest.OneByteReader(bytes.NewReader(full)))
		}
		ns, _, cl := c.newStorage(fmt.Sprintf("imp%d.%d", c.step, i))
		func() {
			defer cl()
			defer ns.Close()
			f := newFaultStorage(ns)
			e, err := mt.NewMerkleTree(f, r.max)
			must(err)
			n := c.step*7 + i
			where := []string{"newtx", "get", "txget", "commit", "crash-before", "crash-after"}[n%6]
			nth := 1
			if where != "newtx" && where != "commit" {
				nth += n / 6 % 4
			}
			f.ctl.arm(where, nth, false)
			crashed := crashes(func() { err = imp(e) })
			fired := f.ctl.fired
			f.ctl.disarm()
			if !crashed && err == nil {
				c.check(m2h(e.RootKey()) == m2h(root), "import.root", "imported %s give root %v", what, e.RootKey())
				c.check(!fired || where == "get" || where == "txget", "import.fault", "%s imported although a storage call (%s) failed", what, where)
			} else {
				c.check(crashed || fired, "import.fault", "%s not imported: %v", what, err)
				c.bump("tree.importfault")
				if !crashed {
					c.check(m2h(e.RootKey()) == H{}, "import.fault", "the import of %s failed (%v) but the root changed", what, err)
				}
			}
			// on disk: all or nothing, and it can be tried again
			e, err = mt.NewMerkleTree(f, r.max)
			c.check(err == nil, "import.reopen", "reopen after an import: %v", err)
			if m2h(e.RootKey()) != m2h(root) {
				c.check(m2h(e.RootKey()) == H{}, "import.fault", "an interrupted import of %s left the root %v", what, e.RootKey())
				err = imp(e)
				c.check(err == nil && m2h(e.RootKey()) == m2h(root), "import.fault", "%s cannot be imported again: %v", what, err)
			}
			all, err := e.DumpClaims(nil)
			c.check(err == nil && fmt.Sprint(all) == fmt.Sprint(r.dump(root)), "import.fault", "%s imported: other entries than in the dump", what)
		}()
	}
}

func (r *treeReplay) dump(root *mt.Hash) []string {
	l, err := r.t.DumpClaims(root)
	must(err)
	return l
}

func (r *treeReplay) synth(c *Ctx, s M) {
	p := r.proof(s["p"])
	k, v := num(s["k"]), num(s["v"])
	rp := p.real(c)
	got, err := mt.RootFromProof(rp, h2m(r.hi(k)), h2m(r.hv(v)))
	if s["rejected"].(bool) {
		c.check(err != nil, "proof.sound", "absence of a key proved by its own leaf")
		return
	}
	root := r.term(s["root"])
	c.check(err == nil && m2h(got) == root, "proof.rootfrom", "depth %d: root %v (%v), specified %v", len(p.sibs), got, err, hx(root))
	c.sameProof(fmt.Sprintf("depth %d", len(p.sibs)), rp, p)
	c.check(mt.VerifyProof(h2m(root), rp, h2m(r.hi(k)), h2m(r.hv(v))), "proof.verify", "depth %d proof does not verify", len(p.sibs))
	for i := range p.sibs {
		if i%17 != c.step%17 && i != len(p.sibs)-1 {
			continue
		}
		q := p
		q.sibs = append([]H{}, p.sibs...)
		q.sibs[i][3] ^= 0x10
		qq := q.real(c)
		c.check(!mt.VerifyProof(h2m(root), qq, h2m(r.hi(k)), h2m(r.hv(v))), "proof.sound", "depth %d: proof with altered sibling %d verifies", len(p.sibs), i)
	}
}

func (r *treeReplay) decode(c *Ctx, s M) {
	for i, x := range arr(s["tries"]) {
		t := obj(x)
		b := make([]byte, 32)
		b[0], b[1] = byte(num(t["flags"])), byte(num(t["depth"]))
		for _, y := range arr(t["bits"]) {
			n := num(y)
			b[31-n/8] |= 1 << uint(n%8)
		}
		for j := 0; j < num(t["nsib"]); j++ {
			h := opaque(j)
			b = append(b, h[:]...)
		}
		if t["aux"].(bool) {
			h, g := opaque(100), opaque(101)
			b = append(append(b, h[:]...), g[:]...)
		}
		b = append(b, make([]byte, num(t["extra"]))...)
		p, err := mt.NewProofFromBytes(b)
		if t["valid"].(bool) {
			c.check(err == nil, "proof.decode", "well formed proof %d refused: %v", i, err)
		} else {
			c.check(err != nil, "proof.malformed", "malformed proof %d accepted: %v", i, x)
		}
		if err == nil {
			// whatever was accepted can be used without crashing
			_, _ = mt.RootFromProof(p, h2m(r.hi(1)), h2m(r.hv(1)))
			_ = mt.SiblingsFromProof(p)
			_ = p.String()
			_ = p.Bytes()
		}
		for _, l := range []int{0, 1, 31} {
			_, err := mt.NewProofFromBytes(b[:l])
			c.check(err != nil, "proof.malformed", "truncated proof of %d bytes accepted", l)
		}
		js, _ := json.Marshal("0x" + hex.EncodeToString(b))
		var pj mt.Proof
		err2 := json.Unmarshal(js, &pj)
		c.check((err2 == nil) == (err == nil), "proof.decode", "JSON and byte decoding disagree on proof %d", i)
	}
}

// deep imports a hand-made tree with a single leaf far below the root.
func (r *treeReplay) deep(c *Ctx, s M) {
	p := r.proof(s["p"])
	k, v := num(s["k"]), num(s["v"])
	root := r.term(s["root"])
	d := r.data(k, v)
	db_ := d.Bytes()
	var dump []byte
	cur := mLeaf(r.hi(k), r.hv(v))
	dump = append(dump, kvRec(cur[:], append([]byte{1}, db_[:]...))...)
	opq := map[H]bool{}
	for i := len(p.sibs) - 1; i >= 0; i-- {
		l, rr := cur, p.sibs[i]
		if refBit(r.hi(k), i) == 1 {
			l, rr = rr, l
		}
		if p.sibs[i] != (H{}) {
			opq[p.sibs[i]] = true
		}
		cur = mMid(l, rr)
		dump = append(dump, kvRec(cur[:], append(append([]byte{0}, l[:]...), rr[:]...))...)
	}
	if cur != root {
		internal("deep: reference root mismatch")
	}
	// the opaque siblings must exist as nodes: give them empty leaves of their own
	st := db.NewMemoryStorage()
	tx, err := st.NewTx()
	must(err)
	for i := 0; i+3 <= len(dump); {
		kl, vl := int(dump[i]), int(dump[i+1])+int(dump[i+2])<<8
		tx.Put(append([]byte{}, dump[i+3:i+3+kl]...), append([]byte{}, dump[i+3+kl:i+3+kl+vl]...))
		i += 3 + kl + vl
	}
	must(tx.Commit())
	t, err := mt.NewMerkleTree(st, 240)
	c.check(err == nil, "tree.new", "%v", err)
	w := fmt.Sprintf("leaf at level %d", len(p.sibs))
	sn, err := t.Snapshot(h2m(root))
	c.check(err == nil, "tree.snapshot", "%s: %v", w, err)
	got, err := sn.GetDataByIndex(h2m(r.hi(k)))
	c.check(err == nil && *got == d, "tree.get", "%s: lookup: %v", w, err)
	c.check(t.EntryExists(r.entry(k, v), h2m(root)) == nil, "tree.exists", "%s: existence", w)
	gp, err := t.GenerateProof(h2m(r.hi(k)), h2m(root))
	c.check(err == nil, "proof.generate", "%s: %v", w, err)
	c.sameProof(w, gp, p)
	c.check(mt.VerifyProof(h2m(root), gp, h2m(r.hi(k)), h2m(r.hv(v))), "proof.verify", "%s: proof does not verify", w)
	// too few levels: refused rather than wrong
	if len(p.sibs) > 1 {
		t2, err := mt.NewMerkleTree(st, len(p.sibs))
		c.check(err == nil, "tree.new", "%v", err)
		_, err = t2.GenerateProof(h2m(r.hi(k)), h2m(root))
		c.check(err != nil, "proof.generate", "%s found by a tree limited to %d levels", w, len(p.sibs))
	}
}
