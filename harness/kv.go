package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/iden3/go-iden3-core/db"
)

type kvReplay struct {
	raw  db.Storage
	dir  string
	pres [][]byte // prefix of every handle
	hs   []db.Storage
	txs  []db.Tx
	rot  int
}

func scribble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0x5a
		}
	}
}

func byteSeq(x interface{}) []byte {
	b := []byte{}
	for _, n := range arr(x) {
		b = append(b, byte(num(n)))
	}
	return b
}

// kvVal gives the bytes of a value; value 0 is empty.
func (r *kvReplay) kvVal(v int) []byte {
	switch {
	case v == 0:
		return []byte{}
	case (v+r.rot)%3 == 0:
		return bytes.Repeat([]byte{byte(v)}, 300)
	case (v+r.rot)%3 == 1:
		return []byte{byte(v), 0, 0xff}
	}
	return []byte{byte(v)}
}

func init() {
	modules["kv"] = func(c *Ctx) Replayer {
		r := &kvReplay{rot: c.beh}
		if strings.HasPrefix(c.fl, "level") {
			r.dir = filepath.Join(c.dir, fmt.Sprintf("kv-%d", c.beh))
			_, err := db.NewLevelDbStorage(r.dir, true)
			c.check(err != nil, "kv.open", "opened a database that does not exist")
			os.RemoveAll(r.dir)
			s, err := db.NewLevelDbStorage(r.dir, false)
			must(err)
			r.raw = s
		} else {
			r.raw = db.NewMemoryStorage()
		}
		r.pres, r.hs = [][]byte{{}}, []db.Storage{r.raw}
		return r
	}
	modules["storelist"] = newStoreList
}

func (r *kvReplay) Close() {
	if r.dir != "" {
		r.raw.Close()
		os.RemoveAll(r.dir)
	}
}

type kvPair struct{ k, v []byte }

func (r *kvReplay) pairs(x interface{}) (ps []kvPair) {
	for _, e := range arr(x) {
		ps = append(ps, kvPair{byteSeq(obj(e)["k"]), r.kvVal(num(obj(e)["v"]))})
	}
	return ps
}

func samePairs(a, b []kvPair) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].k, b[i].k) || !bytes.Equal(a[i].v, b[i].v) {
			return false
		}
	}
	return true
}

func iterate(s db.Storage, n int, stopErr error) (ps []kvPair, err error) {
	err = s.Iterate(func(k, v []byte) (bool, error) {
		ps = append(ps, kvPair{append([]byte{}, k...), append([]byte{}, v...)})
		if len(ps) == n {
			return false, stopErr
		}
		return true, nil
	})
	return
}

func (r *kvReplay) all(c *Ctx, s M) {
	if s["all"] == nil {
		return
	}
	want := r.pairs(s["all"])
	got, err := iterate(r.raw, -1, nil)
	c.check(err == nil && samePairs(got, want), "kv.contents", "storage holds %v (%v), specified %v", got, err, want)
	l, err := r.raw.List(0)
	var lp []kvPair
	for _, x := range l {
		lp = append(lp, kvPair{append([]byte{}, x.K...), append([]byte{}, x.V...)})
		scribble(x.K, x.V)
	}
	c.check(err == nil && samePairs(lp, want), "kv.contents", "List gives %v (%v), specified %v", lp, err, want)
}

func (r *kvReplay) lookup(c *Ctx, what string, e M, v []byte, err error) {
	if e["found"].(bool) {
		want := r.kvVal(num(e["v"]))
		c.check(err == nil && bytes.Equal(v, want), "kv.get", "%s: %x (%v), specified %x", what, v, err, want)
		scribble(v)
	} else {
		c.check(err == db.ErrNotFound, "kv.get", "%s: absent key gives %x, %v", what, v, err)
	}
}

func (r *kvReplay) Step(c *Ctx, s M) {
	switch str(s["op"]) {
	case "prefix":
		p := byteSeq(s["p"])
		h := num(s["h"]) - 1
		buf := append(make([]byte, 0, 64), p...)
		r.hs = append(r.hs, r.hs[h].WithPrefix(buf))
		r.pres = append(r.pres, append(append([]byte{}, r.pres[h]...), p...))
		scribble(buf)
	case "newtx":
		tx, err := r.hs[num(s["h"])-1].NewTx()
		c.check(err == nil, "kv.newtx", "%v", err)
		r.txs = append(r.txs, tx)
	case "put":
		k, v := byteSeq(s["k"]), r.kvVal(num(s["v"]))
		if len(v) == 0 && c.step%2 == 0 {
			v = nil
		}
		r.txs[num(s["t"])-1].Put(k, v)
		scribble(k, v)
	case "txget":
		k := byteSeq(s["k"])
		v, err := r.txs[num(s["t"])-1].Get(k)
		scribble(k)
		r.lookup(c, "transaction", obj(s["exp"]), v, err)
	case "get":
		k := byteSeq(s["k"])
		v, err := r.hs[num(s["h"])-1].Get(k)
		scribble(k)
		r.lookup(c, "storage", obj(s["exp"]), v, err)
	case "commit":
		err := r.txs[num(s["t"])-1].Commit()
		c.check(err == nil, "kv.commit", "%v", err)
	case "close":
		r.txs[num(s["t"])-1].Close()
	case "addtx":
		r.txs[num(s["a"])-1].Add(r.txs[num(s["b"])-1])
	case "iter":
		h := r.hs[num(s["h"])-1]
		want := r.pairs(s["exp"])
		var got []kvPair
		var err error
		switch str(s["how"]) {
		case "all":
			got, err = iterate(h, -1, nil)
		case "stop":
			got, err = iterate(h, num(s["n"]), nil)
		case "err":
			e := errors.New("stop")
			got, err = iterate(h, num(s["n"]), e)
			if len(got) == num(s["n"]) {
				c.check(err == e, "kv.iterate", "the callback's error is lost: %v", err)
				err = nil
			}
		case "list":
			var l []db.KV
			l, err = h.List(num(s["n"]))
			for _, x := range l {
				got = append(got, kvPair{append([]byte{}, x.K...), append([]byte{}, x.V...)})
				scribble(x.K, x.V)
			}
		}
		c.check(err == nil && samePairs(got, want), "kv.iterate", "iteration (%v %v) under %x gives %x (%v), specified %x",
			s["how"], s["n"], r.pres[num(s["h"])-1], got, err, want)
	case "info":
		_ = r.hs[num(s["h"])-1].Info()
	case "reopen":
		if r.dir != "" {
			r.raw.Close()
			s, err := db.NewLevelDbStorage(r.dir, true)
			c.check(err == nil, "kv.reopen", "%v", err)
			r.raw = s
		}
		r.hs[0] = r.raw
		for i := range r.hs {
			if i > 0 {
				r.hs[i] = r.raw.WithPrefix(r.pres[i])
			}
		}
	default:
		internal("kv: unknown op %v", s["op"])
	}
	r.all(c, s)
}

// ---------------------------------------------------------------- lists

type listVal struct {
	A string
	B []byte
	N uint32
	M map[string]int
}

type listReplay struct {
	raw   db.Storage
	dir   string
	st    db.Storage
	tx    db.Tx
	lists []*db.StorageList
	cnts  []*db.StorageValue
	big   *db.StorageList // the long one
	rot   int
}

var cntNames = []string{"NONCE", "counter"}

// name builds a name in a buffer with room to spare, as a caller may.
func spare(s string) []byte { return append(make([]byte, 0, len(s)+40), s...) }

func (r *listReplay) objects() {
	r.lists, r.cnts = nil, nil
	names := []string{"idenstates", "claims"}
	switch r.rot % 3 {
	case 1:
		names = []string{"\x00\xff", "\x00\x00"}
	case 2:
		names = []string{"al", "bl"}
	}
	for _, n := range names {
		b := spare(n)
		r.lists = append(r.lists, db.NewStorageList(b))
	}
	r.big = db.NewStorageList(spare("big"))
	for _, n := range cntNames {
		b := spare(n)
		r.cnts = append(r.cnts, db.NewStorageValue(b))
	}
}

func newStoreList(c *Ctx) Replayer {
	r := &listReplay{rot: c.beh}
	if strings.HasPrefix(c.fl, "level") {
		r.dir = filepath.Join(c.dir, fmt.Sprintf("sl-%d", c.beh))
		s, err := db.NewLevelDbStorage(r.dir, false)
		must(err)
		r.raw = s
	} else {
		r.raw = db.NewMemoryStorage()
	}
	r.st = r.raw
	if strings.HasSuffix(c.fl, "prefix") {
		r.st = r.raw.WithPrefix([]byte("id:"))
	}
	r.objects()
	return r
}

func (r *listReplay) Close() {
	if r.dir != "" {
		r.raw.Close()
		os.RemoveAll(r.dir)
	}
}

func (r *listReplay) key(k int) []byte {
	t := [][]byte{{}, {0}, []byte("len"), bytes.Repeat([]byte{0xff}, 32), []byte("byidx:\x00\x00\x00\x00"), {1, 0, 0, 0}, []byte("k")}
	return append([]byte{}, t[(k+r.rot)%len(t)]...)
}

func (r *listReplay) val(v int) listVal {
	x := listVal{A: fmt.Sprintf("v%d\u00e9\"<&>\x00", v), B: []byte{byte(v), 0, 0xff}, N: uint32(math.MaxUint32 - v), M: map[string]int{"a": v}}
	if (v+r.rot)%2 == 0 {
		x.B = nil
		x.M = nil
		x.A = strings.Repeat("x", v*100)
	}
	return x
}

func (r *listReplay) cval(v int) uint32 {
	return []uint32{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}[v]
}

func sameVal(a, b listVal) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }

// bigKV is what position i of the long list has.  Some of the keys are used
// again, always with the same value.
func bigKV(i int) ([]byte, []int) {
	if i%5 == 4 {
		i -= 4
	}
	return []byte(fmt.Sprintf("key %d", i)), []int{i, i * i}
}

// observeBig looks at the long list where something could go wrong.
func (r *listReplay) observeBig(c *Ctx, what string, tx db.Tx, n int) {
	l, err := r.big.Length(tx)
	if n == 0 && err != nil {
		return
	}
	c.check(err == nil && int(l) == n, "list.length", "%s: the long list has length %d (%v), specified %d", what, l, err, n)
	for _, i := range []int{0, 1, 9, 10, 99, 100, 255, 256, 257, 999, 1000, 9999, 10000, 32767, 32768, 65279, 65280, 65535, 65536, 65537, n - 65537, n - 65536, n - 256, n - 1, n} {
		if i < 0 {
			continue
		}
		var gv []int
		gk, err := r.big.GetByIdx(tx, uint32(i), &gv)
		if i >= n {
			c.check(err != nil, "list.byidx", "%s: the long list of %d was read past its end at %d", what, n, i)
			continue
		}
		k, v := bigKV(i)
		c.check(err == nil && bytes.Equal(gk, k) && len(gv) == 2 && gv[0] == v[0] && gv[1] == v[1], "list.byidx", "%s: the long list of %d has %q %v (%v) at %d", what, n, gk, gv, err, i)
		gv = nil
		err = r.big.Get(tx, k, &gv)
		c.check(err == nil && len(gv) == 2 && gv[0] == v[0] && gv[1] == v[1], "list.bykey", "%s: the long list has %v (%v) for %q", what, gv, err, k)
	}
	if n > 65536 {
		c.bump("long")
	}
}

// observe asks everything there is to ask about the lists and counters.
func (r *listReplay) observe(c *Ctx, what string, tx db.Tx, st db.Storage, o M) {
	for i, x := range arr(o["lists"]) {
		l, sl := obj(x), r.lists[i]
		n, err := sl.Length(tx)
		at := arr(l["at"])
		if !l["init"].(bool) {
			c.check(err != nil, "list.length", "%s: length of a list that does not exist: %d", what, n)
		} else {
			c.check(err == nil && int(n) == len(at), "list.length", "%s: list %d has length %d (%v), specified %d", what, i, n, err, len(at))
		}
		for j, y := range at {
			k, v := r.key(num(obj(y)["k"])), r.val(num(obj(y)["v"]))
			var gv listVal
			gk, err := sl.GetByIdx(tx, uint32(j), &gv)
			c.check(err == nil && bytes.Equal(gk, k) && sameVal(gv, v), "list.byidx", "%s: list %d position %d: %q %v (%v), specified %q %v", what, i, j, gk, gv, err, k, v)
			scribble(gk)
		}
		for _, j := range []uint32{uint32(len(at)), uint32(len(at)) + 1, 256, math.MaxUint32} {
			var gv listVal
			_, err := sl.GetByIdx(tx, j, &gv)
			c.check(err != nil, "list.byidx", "%s: list %d read past its end at %d", what, i, j)
		}
		for _, y := range arr(l["by"]) {
			e := obj(y)
			k := r.key(num(e["k"]))
			var gv listVal
			err := sl.Get(tx, k, &gv)
			if e["found"].(bool) {
				c.check(err == nil && sameVal(gv, r.val(num(e["v"]))), "list.bykey", "%s: list %d key %q: %v (%v)", what, i, k, gv, err)
			} else {
				c.check(err == db.ErrNotFound, "list.bykey", "%s: list %d has no key %q but: %v (%v)", what, i, k, gv, err)
			}
		}
	}
	for i, x := range arr(o["cnts"]) {
		v, err := r.cnts[i].Get(tx)
		if num(x) == 999 {
			c.check(err != nil, "value.get", "%s: counter %d was never set but is %d", what, i, v)
		} else {
			c.check(err == nil && v == r.cval(num(x)), "value.get", "%s: counter %d is %d (%v), specified %d", what, i, v, err, r.cval(num(x)))
		}
	}
	r.observeBig(c, what, tx, num(o["big"]))
	if st != nil {
		for _, y := range arr(o["js"]) {
			e := obj(y)
			var gv listVal
			err := db.LoadJSON(st, append([]byte("js"), r.key(num(e["k"]))...), &gv)
			if e["found"].(bool) {
				c.check(err == nil && sameVal(gv, r.val(num(e["v"]))), "json.load", "%s: record %v: %v (%v)", what, e["k"], gv, err)
			} else {
				c.check(err != nil, "json.load", "%s: record %v does not exist but: %v", what, e["k"], gv)
			}
		}
	}
}

func (r *listReplay) Step(c *Ctx, s M) {
	switch str(s["op"]) {
	case "begin":
		tx, err := r.st.NewTx()
		must(err)
		r.tx = tx
	case "init":
		r.lists[num(s["l"])-1].Init(r.tx)
	case "append":
		k := r.key(num(s["k"]))
		err := r.lists[num(s["l"])-1].Append(r.tx, k, r.val(num(s["v"])))
		scribble(k)
		c.check((err == nil) == (str(s["res"]) == "ok"), "list.append", "append: %v, specified %v", err, s["res"])
	case "bulk":
		n, err := r.big.Length(r.tx)
		if err != nil {
			r.big.Init(r.tx)
			n = 0
		}
		for i := int(n); i < int(n)+num(s["n"]); i++ {
			k, v := bigKV(i)
			c.check(r.big.Append(r.tx, k, v) == nil, "list.append", "append number %d failed", i)
		}
	case "appendbad":
		err := r.lists[num(s["l"])-1].Append(r.tx, r.key(num(s["k"])), func() {})
		c.check(err != nil, "list.append", "a value that cannot be encoded was appended")
	case "set":
		r.cnts[num(s["c"])-1].Set(r.tx, r.cval(num(s["v"])))
	case "json":
		k := append([]byte("js"), r.key(num(s["k"]))...)
		c.check(db.StoreJSON(r.tx, k, r.val(num(s["v"]))) == nil, "json.store", "StoreJSON failed")
		scribble(k)
		c.check(db.StoreJSON(r.tx, append([]byte("js"), r.key(num(s["k"]))...), func() {}) != nil, "json.store", "StoreJSON of a function")
	case "commit":
		c.check(r.tx.Commit() == nil, "list.commit", "commit failed")
		r.tx = nil
	case "abort":
		r.tx.Close()
		r.tx = nil
	case "reopen":
		if r.tx != nil {
			r.tx = nil
		}
		if r.dir != "" {
			r.raw.Close()
			st, err := db.NewLevelDbStorage(r.dir, true)
			must(err)
			r.raw, r.st = st, st
			if strings.HasSuffix(c.fl, "prefix") {
				r.st = r.raw.WithPrefix([]byte("id:"))
			}
		}
		r.objects()
	default:
		internal("storelist: unknown op %v", s["op"])
	}
	if s["obs"] != nil {
		r.observe(c, "in the transaction", r.tx, nil, obj(s["obs"]))
	}
	if s["disk"] != nil {
		tx, err := r.st.NewTx()
		must(err)
		r.observe(c, "committed", tx, r.st, obj(s["disk"]))
		tx.Close()
	}
}
