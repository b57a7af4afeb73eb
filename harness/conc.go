package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iden3/go-iden3-core/db"
	mt "github.com/iden3/go-iden3-core/merkletree"
)

// Several goroutines use one object of the real code; their operations are
// recorded with the instants of call and return, and the specification
// (spec/TreeLin.tla, spec/IssuerLin.tla) decides the recorded history.
//
// Two ways to run: gated, where a seeded scheduler lets one goroutine go on at
// a time and takes over at every access to the storage, the chain and the
// publication; and free, where the goroutines run in parallel (also under the
// race detector).

/******************************** scheduler **********************************/

type schedEv struct {
	id   int
	done bool
}

type sched struct {
	gated bool
	rnd   *rand.Rand
	stay  float64
	ids   sync.Map // goroutine -> worker
	ev    chan schedEv
	run   []chan struct{}
	clock int64
	nsw   int
	nblk  int
}

const blockedAfter = 4 * time.Millisecond

var deadlockAfter = 40 * time.Second

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	s = s[:bytes.IndexByte(s, ' ')]
	x, err := strconv.ParseUint(string(s), 10, 64)
	must(err)
	return x
}

func (s *sched) now() int64 { return atomic.AddInt64(&s.clock, 1) }

// yield is called wherever the code under test touches its surroundings.
func (s *sched) yield() {
	if s == nil || !s.gated {
		return
	}
	w, ok := s.ids.Load(goid())
	if !ok {
		return
	}
	id := w.(int)
	s.ev <- schedEv{id, false}
	<-s.run[id]
}

var errDeadlock = errors.New("deadlock")

// go runs the workers to their end.
func (s *sched) goAll(ws []func()) error {
	n := len(ws)
	if !s.gated {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, w := range ws {
			wg.Add(1)
			go func(w func()) {
				defer wg.Done()
				<-start
				w()
			}(w)
		}
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		close(start)
		select {
		case <-fin:
			return nil
		case <-time.After(deadlockAfter):
			return errDeadlock
		}
	}
	s.ev = make(chan schedEv, n)
	s.run = make([]chan struct{}, n)
	for i := range ws {
		s.run[i] = make(chan struct{}, 1)
		go func(i int) {
			s.ids.Store(goid(), i)
			s.ev <- schedEv{i, false}
			<-s.run[i]
			ws[i]()
			s.ev <- schedEv{i, true}
		}(i)
	}
	ready := map[int]bool{}
	left := n
	take := func(e schedEv) {
		if e.done {
			left--
		} else {
			ready[e.id] = true
		}
	}
	for i := 0; i < n; i++ {
		take(<-s.ev)
	}
	cur := -1
	for left > 0 {
		if len(ready) == 0 {
			select {
			case e := <-s.ev:
				take(e)
			case <-time.After(deadlockAfter):
				return errDeadlock
			}
			continue
		}
		next := cur
		if !ready[cur] || s.rnd.Float64() >= s.stay {
			var l []int
			for i := range ready {
				l = append(l, i)
			}
			sort.Ints(l)
			next = l[s.rnd.Intn(len(l))]
			if next != cur {
				s.nsw++
			}
		}
		cur = next
		delete(ready, cur)
		s.run[cur] <- struct{}{}
		tm := time.NewTimer(blockedAfter)
	wait:
		for {
			select {
			case e := <-s.ev:
				take(e)
				if e.id == cur {
					break wait
				}
			case <-tm.C: // waiting for a lock (or just slow)
				s.nblk++
				break wait
			}
		}
		tm.Stop()
	}
	return nil
}

/******************************* gated storage *******************************/

type gateStorage struct {
	in db.Storage
	s  *sched
}
type gateTx struct {
	in db.Tx
	s  *sched
}

func (g *gateStorage) NewTx() (db.Tx, error) {
	tx, err := g.in.NewTx()
	if err != nil {
		return nil, err
	}
	g.s.yield()
	return &gateTx{tx, g.s}, nil
}
func (g *gateStorage) WithPrefix(p []byte) db.Storage { return &gateStorage{g.in.WithPrefix(p), g.s} }
func (g *gateStorage) Get(k []byte) ([]byte, error) {
	g.s.yield()
	return g.in.Get(k)
}
func (g *gateStorage) List(n int) ([]db.KV, error) { g.s.yield(); return g.in.List(n) }
func (g *gateStorage) Close()                      { g.in.Close() }
func (g *gateStorage) Info() string                { return g.in.Info() }
func (g *gateStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
	g.s.yield()
	return g.in.Iterate(f)
}
func (t *gateTx) Get(k []byte) ([]byte, error) { t.s.yield(); return t.in.Get(k) }
func (t *gateTx) Put(k, v []byte)              { t.in.Put(k, v) }
func (t *gateTx) Add(o db.Tx) {
	if ft, ok := o.(*gateTx); ok {
		o = ft.in
	}
	t.in.Add(o)
}
func (t *gateTx) Commit() error {
	t.s.yield()
	err := t.in.Commit()
	t.s.yield()
	return err
}
func (t *gateTx) Close() { t.in.Close() }

/********************************* histories *********************************/

type concOp struct {
	call, ret int64
	m         M
	late      func(m M) // completes the record once everything is quiet
}

type concHist struct {
	s   *sched
	mu  sync.Mutex
	ops []*concOp

	lates []func(m M)
}

// do runs one operation and records it.
func (h *concHist) do(m M, f func() (late func(m M))) {
	o := &concOp{m: m}
	o.call = h.s.now()
	o.late = f()
	o.ret = h.s.now()
	h.mu.Lock()
	h.ops = append(h.ops, o)
	h.mu.Unlock()
}

type concRun struct {
	c       *Ctx
	mode    string
	backend string
	out     string
	num     int
	lines   [][]byte
}

// perFile is the number of histories that TLC decides in one run.
const perFile = 60

func concMain(args []string, one func(r *concRun, n int, rnd *rand.Rand) M) {
	fs := flag.NewFlagSet("conc", flag.ExitOnError)
	out := fs.String("out", "", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 10, "")
	mode := fs.String("mode", "gated", "gated or free")
	backend := fs.String("backend", "mem", "mem, level or both")
	must(fs.Parse(args))
	dir, err := ioutil.TempDir("", "vh")
	must(err)
	defer os.RemoveAll(dir)
	r := &concRun{c: &Ctx{res: &Result{Ops: map[string]int{}}, seed: *seed, dir: dir}, mode: *mode, out: *out, num: *n}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(abortBehaviour); !ok {
					panic(x)
				}
			}
		}()
		for i := 0; i < *n; i++ {
			r.backend = *backend
			if r.backend == "both" {
				r.backend = []string{"mem", "level"}[i%2]
			}
			r.c.beh, r.c.fl = i, r.backend
			rnd := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
			h := one(r, i, rnd)
			b, err := json.Marshal(h)
			must(err)
			r.lines = append(r.lines, b)
			r.c.res.Behaviours++
		}
	}()
	for f := 0; f*perFile < len(r.lines); f++ {
		e := (f + 1) * perFile
		if e > len(r.lines) {
			e = len(r.lines)
		}
		must(ioutil.WriteFile(filepath.Join(*out, fmt.Sprintf("h%04d.ndjson", f)),
			append(bytes.Join(r.lines[f*perFile:e], []byte("\n")), '\n'), 0600))
	}
	b, _ := json.Marshal(r.c.res)
	fmt.Println("RESULT " + string(b))
}

func (r *concRun) sched(rnd *rand.Rand) *sched {
	return &sched{gated: r.mode == "gated", rnd: rnd, stay: []float64{0, 0.3, 0.7, 0.9}[rnd.Intn(4)]}
}

// finish turns the recorded operations into the lines of the trace.
func (r *concRun) finish(h *concHist) []M {
	ops := []M{}
	sort.Slice(h.ops, func(i, j int) bool { return h.ops[i].call < h.ops[j].call })
	for i, o := range h.ops {
		if o.late != nil {
			o.late(o.m)
		}
		o.m["call"], o.m["ret"] = o.call, o.ret
		ops = append(ops, o.m)
		r.c.res.Steps++
		r.c.res.Ops[str(o.m["op"])]++
		if x := str(o.m["res"]); x != "" && len(x) < 12 {
			r.c.bump(str(o.m["op"]) + "." + x)
		}
		for j := i + 1; j < len(h.ops) && h.ops[j].call < o.ret; j++ {
			r.c.bump("overlapping")
		}
	}
	for _, f := range h.lates {
		f(nil)
		r.c.bump("earlier")
	}
	if r.c.res.Extra == nil {
		r.c.res.Extra = map[string]int{}
	}
	r.c.res.Extra["switches"] += h.s.nsw
	r.c.res.Extra["waits"] += h.s.nblk
	r.c.bump(r.mode + "." + r.backend)
	return ops
}

func stacks() string {
	buf := make([]byte, 1<<16)
	return string(buf[:runtime.Stack(buf, true)])
}

// worker runs f, turning a panic of the code under test into a failed check.
func (r *concRun) worker(sig string, bad *atomic.Value, f func()) func() {
	return func() {
		defer func() {
			if x := recover(); x != nil {
				buf := make([]byte, 1<<14)
				bad.Store(fmt.Sprintf("panic: %v\n%s", x, buf[:runtime.Stack(buf, false)]))
			}
		}()
		f()
	}
}

func (r *concRun) all(sig string, s *sched, ws []func()) {
	var bad atomic.Value
	for i := range ws {
		ws[i] = r.worker(sig, &bad, ws[i])
	}
	err := s.goAll(ws)
	r.c.check(err == nil, sig+".deadlock", "no goroutine goes on\n%s", func() string {
		if err == nil {
			return ""
		}
		return stacks()
	}())
	r.c.check(bad.Load() == nil, sig+".panic", "%v", bad.Load())
}

/*********************************** trees ***********************************/

// setOf is the set of leaves below root, read from the raw storage, provided
// that root is the root of the tree of exactly that set.
func setOf(st db.Storage, root H, limit int) ([]mt.Data, bool) {
	var leaves []mt.Data
	var lf [][2]H
	var walk func(k H, lvl int) bool
	walk = func(k H, lvl int) bool {
		if k == (H{}) {
			return true
		}
		v, err := st.Get(k[:])
		if err != nil || lvl > 250 || len(leaves) > limit {
			return false
		}
		switch {
		case len(v) == 65 && v[0] == 0:
			var l, r H
			copy(l[:], v[1:33])
			copy(r[:], v[33:])
			return walk(l, lvl+1) && walk(r, lvl+1)
		case len(v) == 257 && v[0] == 1:
			var b [256]byte
			copy(b[:], v[1:])
			d := *mt.NewDataFromBytes(b)
			leaves = append(leaves, d)
			lf = append(lf, refEntryMemo(d))
			return true
		}
		return false
	}
	if !walk(root, 0) {
		return nil, false
	}
	return leaves, refTreeRoot(lf, 0) == root
}

// refTreeRoot is the root of the tree of the given leaves.
func refTreeRoot(l [][2]H, lvl int) H {
	switch {
	case len(l) == 0:
		return H{}
	case len(l) == 1:
		return mLeaf(l[0][0], l[0][1])
	case lvl > 250:
		return H{0xff, 0xff}
	}
	var a, b [][2]H
	for _, x := range l {
		if refBit(x[0], lvl) == 0 {
			a = append(a, x)
		} else {
			b = append(b, x)
		}
	}
	return mMid(refTreeRoot(a, lvl+1), refTreeRoot(b, lvl+1))
}

const concKeys, concVals = 9, 3

type concTree struct {
	env  *treeEnv
	raw  db.Storage
	back map[mt.Data][2]int
	sets map[H][][2]int
}

var badSet = [][2]int{{0, 0}}

func (t *concTree) entries(ds []mt.Data, dup bool) [][2]int {
	out := [][2]int{}
	seen := map[[2]int]bool{}
	for _, d := range ds {
		kv, ok := t.back[d]
		if !ok || seen[kv] {
			return badSet
		}
		seen[kv] = true
		out = append(out, kv)
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1] })
	return out
}

func (t *concTree) set(root H) [][2]int {
	if s, ok := t.sets[root]; ok {
		return s
	}
	s := badSet
	if ds, ok := setOf(t.raw, root, 64); ok {
		s = t.entries(ds, false)
	}
	t.sets[root] = s
	return s
}

// keysFor picks abstract keys: some whose paths share a long prefix.
func concKeySet(rnd *rand.Rand, n int) []int {
	keyTable()
	byPre := map[string][]int{}
	for i, row := range keyTab {
		if len(row.Path) >= 4 {
			k := fmt.Sprint(row.Path[:4])
			byPre[k] = append(byPre[k], i+1)
		}
	}
	var pres []string
	for k := range byPre {
		pres = append(pres, k)
	}
	sort.Strings(pres)
	seen := map[int]bool{}
	var ks []int
	add := func(k int) {
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	for len(ks) < n {
		if rnd.Intn(2) == 0 {
			add(1 + rnd.Intn(len(keyTab)))
		} else {
			l := byPre[pres[rnd.Intn(len(pres))]]
			for i := 0; i < 3 && i < len(l); i++ {
				add(l[rnd.Intn(len(l))])
			}
		}
	}
	return ks[:n]
}

// a bytes.Buffer with a way to let others run between writes
type gateWriter struct {
	bytes.Buffer
	s *sched
}

func (w *gateWriter) Write(b []byte) (int, error) {
	w.s.yield()
	return w.Buffer.Write(b)
}

type gateReader struct {
	*bytes.Reader
	s *sched
}

func (w *gateReader) Read(b []byte) (int, error) {
	w.s.yield()
	if len(b) > 200 {
		b = b[:200]
	}
	return w.Reader.Read(b)
}

func concTreeHistory(r *concRun, n int, rnd *rand.Rand) M {
	c := r.c
	s := r.sched(rnd)
	h := &concHist{s: s}
	ks := concKeySet(rnd, concKeys)
	t := &concTree{env: &treeEnv{rot: rnd.Intn(3), memo: map[string]H{}}, back: map[mt.Data][2]int{}, sets: map[H][][2]int{}}
	for _, k := range ks {
		for v := 1; v <= concVals; v++ {
			t.back[t.env.data(k, v)] = [2]int{k, v}
		}
	}
	levels := 140
	conf := [][2]int{}
	if rnd.Intn(3) == 0 {
		levels = 3 + rnd.Intn(3)
		for i, a := range ks {
			for _, b := range ks[i+1:] {
				same := true
				for l := 0; l < levels-1; l++ {
					same = same && refBit(t.env.hi(a), l) == refBit(t.env.hi(b), l)
				}
				if same {
					conf = append(conf, [2]int{a, b})
				}
			}
		}
	}
	raw, _, clean := c.newStorage("c")
	defer clean()
	defer raw.Close()
	if rnd.Intn(2) == 0 {
		t.raw = raw.WithPrefix([]byte("treeclaims:"))
	} else {
		t.raw = raw
	}
	gs := &gateStorage{t.raw, s}
	tree, err := mt.NewMerkleTree(gs, levels)
	must(err)

	// a dump of some other tree, to be imported
	var dump []byte
	dumped := [][2]int{}
	if rnd.Intn(4) == 0 {
		other, err := mt.NewMerkleTree(db.NewMemoryStorage(), levels)
		must(err)
		for i := 0; i < 3; i++ {
			k, v := ks[rnd.Intn(len(ks))], 1+rnd.Intn(concVals)
			if other.AddEntry(t.env.entry(k, v)) == nil {
				dumped = append(dumped, [2]int{k, v})
			}
		}
		w := new(bytes.Buffer)
		must(other.DumpTree(w, nil))
		dump = w.Bytes()
	}

	// An imported tree replaces the entries.  The nodes of what was there stay in
	// the storage, and inserting an entry again that makes one of them again is
	// refused: such histories insert every entry once.
	once := map[int]bool{}
	if dump != nil {
		for _, k := range ks {
			once[k] = true
		}
		for _, e := range dumped {
			delete(once, e[0])
		}
	}
	var onceMu sync.Mutex

	nw := 2 + rnd.Intn(4)
	perW := 3 + rnd.Intn(4)
	if r.mode == "free" {
		nw, perW = 4+rnd.Intn(4), 5
	}
	hotKeys := ks[:2+rnd.Intn(len(ks)-2)]
	var ws []func()
	for w := 0; w < nw; w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		ws = append(ws, func() {
			var snaps []*mt.MerkleTree
			var olds []*mt.Hash
			for i := 0; i < perW; i++ {
				k, v := hotKeys[wr.Intn(len(hotKeys))], 1+wr.Intn(concVals)
				en := t.env.entry(k, v)
				hi := h2m(t.env.hi(k))
				switch x := wr.Intn(20); {
				case x < 8:
					if dump != nil {
						onceMu.Lock()
						ok := once[k]
						delete(once, k)
						onceMu.Unlock()
						if !ok {
							continue
						}
					}
					h.do(M{"op": "add", "k": k, "v": v}, func() func(M) {
						err := tree.AddEntry(en)
						return func(m M) { m["res"] = treeErr(err) }
					})
				case (x == 8 || x == 12) && dump != nil && i < 2:
					h.do(M{"op": "import"}, func() func(M) {
						err := tree.ImportTree(&gateReader{bytes.NewReader(dump), s})
						return func(m M) { m["res"], m["set"] = treeErr(err), dumped }
					})
				case x < 10:
					h.do(M{"op": "get", "k": k}, func() func(M) {
						d, err := tree.GetDataByIndex(hi)
						return func(m M) {
							m["res"] = -1
							if err == mt.ErrEntryIndexNotFound {
								m["res"] = 0
							} else if err == nil {
								if kv, ok := t.back[*d]; ok && kv[0] == k {
									m["res"] = kv[1]
								}
							}
						}
					})
				case x < 11:
					h.do(M{"op": "has", "k": k, "v": v}, func() func(M) {
						err := tree.EntryExists(en, nil)
						return func(m M) { m["res"] = hasErr(err) }
					})
				case x < 13:
					h.do(M{"op": "root"}, func() func(M) {
						rt := tree.RootKey()
						olds = append(olds, rt)
						return func(m M) { m["set"] = t.set(m2h(rt)) }
					})
				case x < 15:
					h.do(M{"op": "proof", "k": k}, func() func(M) {
						p, err := tree.GenerateProof(hi, nil)
						return t.proofOf(k, p, err)
					})
				case x < 16:
					h.do(M{"op": "dump"}, func() func(M) {
						l, err := tree.DumpClaims(nil)
						return func(m M) { m["set"] = t.dumped(l, err) }
					})
				case x < 17:
					h.do(M{"op": "dumptree"}, func() func(M) {
						w := &gateWriter{s: s}
						err := tree.DumpTree(w, nil)
						return func(m M) {
							m["set"] = badSet
							if err != nil {
								m["err"] = err.Error()
								return
							}
							fresh := db.NewMemoryStorage()
							o, err := mt.NewMerkleTree(fresh, levels)
							must(err)
							if err := o.ImportTree(bytes.NewReader(w.Bytes())); err != nil {
								m["err"] = err.Error()
								return
							}
							o2 := &concTree{env: t.env, raw: fresh, back: t.back, sets: map[H][][2]int{}}
							m["set"] = o2.set(m2h(o.RootKey()))
						}
					})
				case x < 18:
					h.do(M{"op": "walk"}, func() func(M) {
						var ds []mt.Data
						err := tree.Walk(nil, func(n *mt.Node) {
							if n.Type == mt.NodeTypeLeaf {
								ds = append(ds, n.Entry.Data)
							}
						})
						return func(m M) {
							m["set"] = badSet
							if err == nil {
								m["set"] = t.entries(ds, false)
							}
						}
					})
				case x < 19 || len(snaps)+len(olds) == 0:
					h.do(M{"op": "snap"}, func() func(M) {
						rt := tree.RootKey()
						sn, err := tree.Snapshot(rt)
						if err != nil {
							return func(m M) { m["set"], m["err"] = badSet, err.Error() }
						}
						snaps = append(snaps, sn)
						l, err := sn.DumpClaims(nil)
						same := sn.RootKey().Equals(rt)
						return func(m M) {
							m["set"] = t.dumped(l, err)
							c.check(same, "lin.snapshot", "the root of a snapshot is not the one it was taken at")
						}
					})
				default:
					// what an earlier root or snapshot shows never changes: decided when all is quiet
					t.old(r, h, tree, snaps, olds, wr, k, v)
				}
			}
		})
	}
	r.all("lin", s, ws)
	s.gated = false
	// when all is quiet: the tree and what was stored
	h.do(M{"op": "final"}, func() func(M) {
		rt := tree.RootKey()
		return func(m M) { m["set"] = t.set(m2h(rt)) }
	})
	h.do(M{"op": "reopen"}, func() func(M) {
		t2, err := mt.NewMerkleTree(t.raw, levels)
		if err != nil {
			return func(m M) { m["set"], m["err"] = badSet, err.Error() }
		}
		rt := t2.RootKey()
		return func(m M) { m["set"] = t.set(m2h(rt)) }
	})
	ops := r.finish(h)
	return M{"conf": conf, "ops": ops, "levels": levels, "backend": r.backend, "mode": r.mode, "n": n}
}

// proofOf tells the set that a proof is about.
func (t *concTree) proofOf(k int, p *mt.Proof, err error) func(M) {
	return func(m M) {
		m["set"], m["exists"] = badSet, false
		if err != nil {
			m["err"] = err.Error()
			return
		}
		m["exists"] = p.Existence
		for v := 1; v <= concVals; v++ {
			rt, err := mt.RootFromProof(p, h2m(t.env.hi(k)), h2m(t.env.hv(v)))
			if err != nil {
				continue
			}
			s := t.set(m2h(rt))
			if len(s) > 0 && s[0] == badSet[0] {
				continue
			}
			in := false
			for _, kv := range s {
				in = in || kv == [2]int{k, v}
			}
			if in == p.Existence {
				m["set"] = s
				return
			}
		}
	}
}

func (t *concTree) dumped(l []string, err error) [][2]int {
	if err != nil {
		return badSet
	}
	var ds []mt.Data
	for _, x := range l {
		var d mt.Data
		if d.UnmarshalText([]byte(x)) != nil {
			return badSet
		}
		ds = append(ds, d)
	}
	return t.entries(ds, true)
}

// old reads an earlier state of the tree; nothing that goes on may change it.
func (t *concTree) old(r *concRun, h *concHist, tree *mt.MerkleTree, snaps []*mt.MerkleTree, olds []*mt.Hash, wr *rand.Rand, k, v int) {
	var rt *mt.Hash
	var at *mt.MerkleTree
	i := wr.Intn(len(snaps) + len(olds))
	if i < len(snaps) {
		at, rt = snaps[i], snaps[i].RootKey()
	} else {
		rt = olds[i-len(snaps)]
	}
	hi := h2m(t.env.hi(k))
	var late func(m M)
	switch x := wr.Intn(4); {
	case at != nil && x == 0:
		d, err := at.GetDataByIndex(hi)
		late = func(M) {
			want := 0
			for _, kv := range t.set(m2h(rt)) {
				if kv[0] == k {
					want = kv[1]
				}
			}
			got := -1
			if err == mt.ErrEntryIndexNotFound {
				got = 0
			} else if err == nil {
				got = t.back[*d][1]
			}
			r.c.check(got == want, "lin.old", "key %d in a snapshot: value %d (%v), not %d", k, got, err, want)
		}
	case at != nil && x == 1:
		err := at.AddEntry(t.env.entry(k, v))
		late = func(M) { r.c.check(err == mt.ErrNotWritable, "lin.old", "insertion into a snapshot: %v", err) }
	case at != nil:
		l, err := at.DumpClaims(nil)
		late = func(M) {
			r.c.check(fmt.Sprint(t.dumped(l, err)) == fmt.Sprint(t.set(m2h(rt))), "lin.old", "a snapshot changed: %v", t.dumped(l, err))
		}
	case x == 0:
		p, err := tree.GenerateProof(hi, rt)
		late = func(M) {
			m := M{}
			t.proofOf(k, p, err)(m)
			r.c.check(fmt.Sprint(m["set"]) == fmt.Sprint(t.set(m2h(rt))), "lin.old", "a proof at an earlier root is about %v (%v)", m["set"], m["err"])
		}
	case x == 1:
		err := tree.EntryExists(t.env.entry(k, v), rt)
		late = func(M) {
			want := "no"
			for _, kv := range t.set(m2h(rt)) {
				if kv == [2]int{k, v} {
					want = "yes"
				} else if kv[0] == k {
					want = "other"
				}
			}
			r.c.check(hasErr(err) == want, "lin.old", "entry at an earlier root: %v, not %s", err, want)
		}
	default:
		l, err := tree.DumpClaims(rt)
		late = func(M) {
			r.c.check(fmt.Sprint(t.dumped(l, err)) == fmt.Sprint(t.set(m2h(rt))), "lin.old", "an earlier state changed: %v", t.dumped(l, err))
		}
	}
	h.mu.Lock()
	h.lates = append(h.lates, late)
	h.mu.Unlock()
}

func treeErr(err error) string {
	switch err {
	case nil:
		return "ok"
	case mt.ErrEntryIndexAlreadyExists:
		return "exists"
	case mt.ErrReachedMaxLevel:
		return "max"
	}
	return "error: " + err.Error()
}

func hasErr(err error) string {
	switch err {
	case nil:
		return "yes"
	case mt.ErrEntryIndexNotFound:
		return "no"
	case mt.ErrEntryDataNotMatch:
		return "other"
	}
	return "error: " + err.Error()
}

func init() {
	commands["conctree"] = func(a []string) { concMain(a, concTreeHistory) }
}
