package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	offlocal "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	localchain "github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/keystore"
	mt "github.com/iden3/go-iden3-core/merkletree"
	noncedb "github.com/iden3/go-iden3-core/utils/noncedb"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// Histories of several goroutines using one of the smaller shared parts
// (spec/SharedLin.tla).

func concSharedHistory(r *concRun, n int, rnd *rand.Rand) M {
	objs := []string{"cache", "keys", "chain"}
	if r.mode != "gated" { // there is nothing to take over at in the others
		objs = []string{"cache", "keys", "chain", "kv", "nonces", "kv", "nonces"}
	}
	obj := objs[(n/2)%len(objs)]
	s := r.sched(rnd)
	h := &concHist{s: s}
	m := M{"obj": obj, "cap": 0}
	switch obj {
	case "kv":
		sharedKV(r, h, rnd)
	case "cache":
		m["cap"] = sharedCache(r, h, rnd)
	case "nonces":
		sharedNonces(r, h, rnd)
	case "keys":
		sharedKeys(r, h, rnd)
	case "chain":
		sharedChain(r, h, rnd)
	}
	m["ops"] = r.finish(h)
	r.c.bump(obj + "." + r.mode)
	return m
}

// fork has each of n goroutines make each operations.
func (r *concRun) fork(h *concHist, rnd *rand.Rand, n, each int, f func(w int, wr *rand.Rand)) {
	var ws []func()
	for w := 0; w < n; w++ {
		w, wr := w, rand.New(rand.NewSource(rnd.Int63()))
		ws = append(ws, func() {
			for i := 0; i < each; i++ {
				f(w, wr)
				if wr.Intn(4) == 0 {
					runtime.Gosched()
				}
			}
		})
	}
	r.all("lin", h.s, ws)
}

/********************************** storage **********************************/

func sharedKV(r *concRun, h *concHist, rnd *rand.Rand) {
	raw, _, clean := r.c.newStorage("s")
	defer clean()
	defer raw.Close()
	// two parts that share the storage
	parts := []db.Storage{raw.WithPrefix([]byte("a:")), raw.WithPrefix([]byte("b:"))}
	var val int64
	// enc pads to different lengths, to tell torn values from whole ones
	enc := func(v int) []byte { return bytes.Repeat([]byte{byte(v)}, 1+v%37) }
	dec := func(b []byte) int {
		if len(b) == 0 || !bytes.Equal(b, enc(int(b[0]))) {
			return -1
		}
		return int(b[0])
	}
	// a key of the history is a family of keys written together, so that a
	// batch can be large
	fan := 1
	if r.mode == "free" {
		fan = []int{1, 60, 400}[rnd.Intn(3)]
	}
	key := func(k, j int) []byte { return []byte{'k', byte(k), byte(j >> 8), byte(j)} }
	r.fork(h, rnd, 3+rnd.Intn(2), 5, func(w int, wr *rand.Rand) {
		p := wr.Intn(2)
		st := parts[p]
		k := 1 + wr.Intn(3)
		switch wr.Intn(6) {
		case 0, 1, 2:
			batch := [][2]int{}
			m := M{"op": "commit", "pre": p}
			ks := wr.Perm(3)[:1+wr.Intn(3)]
			for _, k := range ks {
				batch = append(batch, [2]int{k + 1, 1 + int(atomic.AddInt64(&val, 1))%200})
			}
			m["batch"] = batch
			h.do(m, func() func(M) {
				tx, err := st.NewTx()
				must(err)
				for j := 0; j < fan; j++ {
					for _, b := range batch {
						tx.Put(key(b[0], j), enc(b[1]))
					}
				}
				err = tx.Commit()
				m["res"] = okErr(err)
				return nil
			})
		case 3, 4:
			m := M{"op": "get", "pre": p, "k": k}
			j := wr.Intn(fan)
			h.do(m, func() func(M) {
				v, err := st.Get(key(k, j))
				if err == db.ErrNotFound {
					m["val"] = 0
				} else if err != nil {
					m["val"], m["err"] = -1, err.Error()
				} else {
					m["val"] = dec(v)
				}
				return nil
			})
		default:
			m := M{"op": "list", "pre": p}
			h.do(m, func() func(M) {
				set := [][2]int{}
				n := 0
				add := func(k, v []byte) {
					if len(k) != 4 || k[0] != 'k' {
						set = append(set, [2]int{-1, -1})
						return
					}
					e, j := [2]int{int(k[1]), dec(v)}, int(k[2])<<8|int(k[3])
					if j == 0 {
						set = append(set, e)
						n = 0
					}
					// of each family all keys, in order, with one value
					if n != j || len(set) == 0 || e != set[len(set)-1] {
						set = append(set, [2]int{-1, -1})
					}
					n++
					if n == fan {
						n = 0
					}
				}
				var err error
				if wr.Intn(2) == 0 {
					var l []db.KV
					l, err = st.List(10 * fan)
					for _, kv := range l {
						add(kv.K, kv.V)
					}
				} else {
					err = st.Iterate(func(k, v []byte) (bool, error) { add(k, v); return true, nil })
				}
				if err != nil {
					set = [][2]int{{-1, -1}}
					m["err"] = err.Error()
				} else if n != 0 {
					set = append(set, [2]int{-1, -1})
				}
				m["set"] = set
				return nil
			})
		}
	})
}

func okErr(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

/****************************** published states *****************************/

type sharedState struct {
	pd    *idenpuboffchain.PublicData
	blobs idenpuboffchain.PublicDataBlobs
}

var (
	sharedOnce   sync.Once
	sharedStates []sharedState
)

// statesToPublish are consecutive states of one identity.
func statesToPublish() []sharedState {
	sharedOnce.Do(func() {
		clt, ret, rot := memTree(), memTree(), memTree()
		for i := 0; i < 6; i++ {
			var a [claims.IndexSlotLen]byte
			var b [claims.ValueSlotLen]byte
			a[0] = byte(i + 1)
			must(clt.AddClaim(claims.NewClaimBasic(a, b)))
			must(claims.AddLeafRootsTree(rot, clt.RootKey()))
			must(claims.AddLeafRevocationsTree(ret, uint32(i), 0xffffffff))
			pd := &idenpuboffchain.PublicData{ClaimsTreeRoot: clt.RootKey(), RevocationsTreeRoot: ret.RootKey(), RevocationsTree: ret,
				RootsTreeRoot: rot.RootKey(), RootsTree: rot}
			pd.IdenState = core.IdenState(pd.ClaimsTreeRoot, pd.RevocationsTreeRoot, pd.RootsTreeRoot)
			var x, y bytes.Buffer
			must(ret.DumpTree(&x, pd.RevocationsTreeRoot))
			must(rot.DumpTree(&y, pd.RootsTreeRoot))
			sharedStates = append(sharedStates, sharedState{pd, idenpuboffchain.PublicDataBlobs{IdenState: *pd.IdenState, ClaimsTreeRoot: *pd.ClaimsTreeRoot,
				RevocationsTreeRoot: *pd.RevocationsTreeRoot, RevocationsTree: x.Bytes(), RootsTreeRoot: *pd.RootsTreeRoot, RootsTree: y.Bytes()}})
		}
	})
	return sharedStates
}

// whichState finds the state that an answer is, as a whole.
func whichState(b *idenpuboffchain.PublicDataBlobs) int {
	for i, s := range statesToPublish() {
		w := s.blobs
		if b.IdenState == w.IdenState && b.ClaimsTreeRoot == w.ClaimsTreeRoot && b.RevocationsTreeRoot == w.RevocationsTreeRoot &&
			b.RootsTreeRoot == w.RootsTreeRoot && bytes.Equal(b.RevocationsTree, w.RevocationsTree) && bytes.Equal(b.RootsTree, w.RootsTree) {
			return i + 1
		}
	}
	return -1
}

func sharedCache(r *concRun, h *concHist, rnd *rand.Rand) int {
	ss := statesToPublish()
	s := h.s
	capacity := 1 + rnd.Intn(3)
	var publish func(id, p int) error
	var get func(id, p int) (int, error)
	var ids [2]core.ID
	for i := range ids {
		ids[i] = core.NewID(core.TypeBJP0, [27]byte{byte(i + 1)})
	}
	nid := 1
	if rnd.Intn(3) == 0 {
		loc := offlocal.NewIdenPubOffChain("http://here")
		capacity, nid = 1000, 2
		publish = func(id, p int) error {
			s.yield()
			d := *ss[p-1].pd
			return loc.Publish(&ids[id-1], &d)
		}
		get = func(id, p int) (int, error) {
			s.yield()
			var q *mt.Hash
			if p != 0 {
				q = ss[p-1].pd.IdenState
			}
			pd, err := loc.GetPublicData("http://here", &ids[id-1], q)
			if err != nil {
				return 0, err
			}
			s.yield()
			var x, y bytes.Buffer
			must(pd.RevocationsTree.DumpTree(&x, nil))
			must(pd.RootsTree.DumpTree(&y, nil))
			return whichState(&idenpuboffchain.PublicDataBlobs{IdenState: *pd.IdenState, ClaimsTreeRoot: *pd.ClaimsTreeRoot,
				RevocationsTreeRoot: *pd.RevocationsTreeRoot, RevocationsTree: x.Bytes(), RootsTreeRoot: *pd.RootsTreeRoot, RootsTree: y.Bytes()}), nil
		}
		r.c.bump("cache.local")
	} else {
		raw, _, clean := r.c.newStorage("w")
		defer clean()
		defer raw.Close()
		w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: byte(capacity), Url: "http://here"}, &gateStorage{raw, s})
		must(err)
		publish = func(_, p int) error { return w.Publish(&ids[0], ss[p-1].pd) }
		get = func(_, p int) (int, error) {
			var q *mt.Hash
			if p != 0 {
				q = ss[p-1].pd.IdenState
			}
			b, err := w.GetPublicData(q)
			if err != nil {
				return 0, err
			}
			return whichState(b), nil
		}
		r.c.bump("cache.server")
	}
	var next int64
	r.fork(h, rnd, 3+rnd.Intn(2), 4, func(w int, wr *rand.Rand) {
		id := 1 + wr.Intn(nid)
		switch x := wr.Intn(8); {
		case x < 4:
			p := 1 + int(atomic.AddInt64(&next, 1)-1)%len(ss)
			if wr.Intn(4) == 0 {
				p = 1 + wr.Intn(len(ss))
			}
			m := M{"op": "publish", "id": id, "p": p}
			h.do(m, func() func(M) { m["res"] = okErr(publish(id, p)); return nil })
		case x < 6:
			m := M{"op": "latest", "id": id}
			h.do(m, func() func(M) {
				v, err := get(id, 0)
				m["val"] = v
				if err != nil {
					m["err"] = err.Error()
				}
				return nil
			})
		default:
			p := 1 + wr.Intn(len(ss))
			m := M{"op": "fetch", "id": id, "p": p}
			h.do(m, func() func(M) {
				v, err := get(id, p)
				m["val"] = v
				if err != nil {
					m["err"] = err.Error()
				}
				return nil
			})
		}
	})
	return capacity
}

/*********************************** nonces **********************************/

func sharedNonces(r *concRun, h *concHist, rnd *rand.Rand) {
	// One round is short, and most of them meet nowhere: the history is the one
	// that has most operations at the same time.
	var best *concHist
	most := -1
	for round := 0; round < 40; round++ {
		hh := &concHist{s: &sched{rnd: rnd}}
		ndb := noncedb.NewNonceDb()
		nn := 1 + rnd.Intn(2)
		// what is there at first
		for k := 1; k <= nn; k++ {
			addNonce(hh, ndb, k, rnd)
		}
		hot := []string{"take", "aux", "add", "mix", "mix"}[rnd.Intn(5)]
		r.fork(hh, rnd, 4, 2+rnd.Intn(3), func(w int, wr *rand.Rand) {
			k := 1 + wr.Intn(nn)
			name := fmt.Sprint("nonce", k)
			op := hot
			if hot == "mix" || wr.Intn(4) == 0 {
				op = []string{"take", "aux", "add", "search", "clean"}[wr.Intn(5)]
			}
			switch op {
			case "add":
				addNonce(hh, ndb, k, wr)
			case "search", "take":
				m := M{"op": op, "n": k}
				hh.do(m, func() func(M) {
					f := ndb.Search
					if op == "take" {
						f = ndb.SearchAndDelete
					}
					o, ok := f(name)
					m["val"] = 99
					if ok {
						m["val"] = 0
						if o.Aux != nil {
							m["val"] = o.Aux.(int)
						}
						if o.Nonce != name {
							m["val"] = -1
						}
					}
					return nil
				})
			case "aux":
				a := 1 + wr.Intn(90)
				m := M{"op": "aux", "n": k, "aux": a}
				hh.do(m, func() func(M) {
					m["res"] = "no"
					if ndb.AddAux(name, a) {
						m["res"] = "ok"
					}
					return nil
				})
			case "clean":
				m := M{"op": "clean"}
				hh.do(m, func() func(M) { ndb.DeleteOld(); m["res"] = "ok"; return nil })
			}
		})
		over := 0
		for i, a := range hh.ops {
			for _, b := range hh.ops[:i] {
				if a.call < b.ret && b.call < a.ret {
					over++
				}
			}
		}
		if over > most {
			best, most = hh, over
		}
		// two that consumed one nonce are worth deciding whatever else happened
		taken, added := map[int]int{}, map[int]int{}
		for _, o := range hh.ops {
			if o.m["op"] == "take" && o.m["val"] != 99 {
				taken[o.m["n"].(int)]++
			}
			if o.m["op"] == "add" && o.m["res"] == "ok" {
				added[o.m["n"].(int)]++
			}
		}
		odd := false
		for k, n := range taken {
			odd = odd || n > added[k]
		}
		if odd {
			best = hh
			break
		}
	}
	h.ops, h.s = best.ops, best.s
}

func addNonce(h *concHist, ndb *noncedb.NonceDb, k int, wr *rand.Rand) {
	dead := wr.Intn(4) == 0
	delta := int64(10000)
	if dead {
		delta = -1000
	}
	a := 0
	var aux interface{}
	if wr.Intn(3) == 0 {
		a = 1 + wr.Intn(90)
		aux = a
	}
	m := M{"op": "add", "n": k, "aux": a, "dead": dead}
	h.do(m, func() func(M) {
		m["res"] = "dup"
		if o := ndb.Add(fmt.Sprint("nonce", k), delta, aux); o != nil {
			m["res"] = "ok"
		}
		return nil
	})
}

/************************************ keys ***********************************/

// gateKeys is a storage of keys that gives way at every access.
type gateKeys struct {
	keystore.Storage
	s *sched
}

func (g *gateKeys) Read() ([]byte, error) { g.s.yield(); return g.Storage.Read() }
func (g *gateKeys) Write(b []byte) error {
	g.s.yield()
	err := g.Storage.Write(b)
	g.s.yield()
	return err
}

var sharedSecrets = struct {
	sync.Mutex
	sk [4]babyjub.PrivateKey
	pk [4]babyjub.PublicKeyComp
	ok bool
}{}

func sharedKeys(r *concRun, h *concHist, rnd *rand.Rand) {
	x := &sharedSecrets
	if !x.ok {
		for k := range x.sk {
			x.sk[k] = ksSecret(k)
			x.pk[k] = x.sk[k].Public().Compress()
		}
		x.ok = true
	}
	back := map[babyjub.PublicKeyComp]int{}
	for k, pk := range x.pk {
		back[pk] = k
	}
	params := keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}
	dir, err := ioutil.TempDir(r.c.dir, "ks")
	must(err)
	defer os.RemoveAll(dir)
	var st keystore.Storage = &keystore.MemStorage{}
	if r.c.fl == "level" {
		st = keystore.NewFileStorage(filepath.Join(dir, "keys"))
	}
	ks, err := keystore.NewKeyStore(&gateKeys{st, h.s}, params)
	must(err)
	kerr := func(err error) string {
		switch err {
		case nil:
			return "ok"
		case keystore.ErrKeyStoreClosed:
			return "closed"
		case keystore.ErrKeyNotFound:
			return "absent"
		case keystore.ErrInvalidEncData:
			return "wrong"
		case keystore.ErrKeyNotInCache:
			return "locked"
		}
		return "error: " + err.Error()
	}
	closes := rnd.Intn(3) == 0
	r.fork(h, rnd, 3+rnd.Intn(2), 4, func(w int, wr *rand.Rand) {
		k, p := 1+wr.Intn(3), 1+wr.Intn(2)
		pk := x.pk[k]
		h.s.yield()
		switch y := wr.Intn(14); {
		case y < 4:
			m := M{"op": "import", "k": k, "p": p}
			h.do(m, func() func(M) {
				got, err := ks.ImportKey(x.sk[k], ksPass(p))
				m["res"] = kerr(err)
				if err == nil && *got != pk {
					m["res"] = "another key"
				}
				return nil
			})
		case y < 8:
			m := M{"op": "unlock", "k": k, "p": p}
			h.do(m, func() func(M) { m["res"] = kerr(ks.UnlockKey(&pk, ksPass(p))); return nil })
		case y < 10:
			m := M{"op": "sign", "k": k}
			msg := []byte(fmt.Sprint("message", w, wr.Intn(1000)))
			h.do(m, func() func(M) {
				sig, err := ks.SignRaw(&pk, msg)
				m["res"] = kerr(err)
				return func(m M) {
					if err == nil {
						ok, err := keystore.VerifySignatureRaw(&pk, sig, msg)
						if err != nil || !ok {
							m["res"] = fmt.Sprint("bad signature: ", err)
						}
					}
				}
			})
		case y < 11:
			m := M{"op": "export", "k": k}
			h.do(m, func() func(M) {
				sk, err := ks.ExportKey(&pk)
				m["res"] = kerr(err)
				h.s.yield()
				return func(m M) {
					if err == nil && *sk != x.sk[k] {
						m["res"] = "another secret"
					}
				}
			})
		case y < 13 || !closes:
			m := M{"op": "keys"}
			h.do(m, func() func(M) {
				l := ks.Keys()
				set := []int{}
				for _, pk := range l {
					k, ok := back[pk]
					if !ok {
						k = -1
					}
					set = append(set, k)
				}
				sort.Ints(set)
				m["set"] = set
				return nil
			})
		default:
			m := M{"op": "close"}
			h.do(m, func() func(M) { m["res"] = okErr(ks.Close()); return nil })
		}
	})
	m := M{"op": "close"}
	h.do(m, func() func(M) { m["res"] = okErr(ks.Close()); return nil })
	// what the storage holds
	m2 := M{"op": "stored"}
	h.do(m2, func() func(M) {
		set := [][2]int{}
		again, err := keystore.NewKeyStore(st, params)
		if err != nil {
			m2["err"] = err.Error()
			m2["set"] = [][2]int{{-1, -1}}
			return nil
		}
		for _, pk := range again.Keys() {
			pk, n := pk, 0
			for p := 1; p <= 2; p++ {
				if again.UnlockKey(&pk, ksPass(p)) == nil {
					n = p
				}
			}
			k, ok := back[pk]
			if !ok {
				k = -1
			}
			set = append(set, [2]int{k, n})
		}
		must(again.Close())
		m2["set"] = set
		return nil
	})
}

/*********************************** chain ***********************************/

func sharedChain(r *concRun, h *concHist, rnd *rand.Rand) {
	vk, err := parsers.ParseVk([]byte(`{"kind":"vk","circuit":"idenState","nPublic":3}`))
	must(err)
	var now int64 = 1000
	s := h.s
	loc := localchain.New(func() time.Time { s.yield(); return time.Unix(1500000000+atomic.LoadInt64(&now), 0) },
		func() uint64 { s.yield(); return uint64(atomic.LoadInt64(&now)) }, vk)
	var ids [2]core.ID
	for i := range ids {
		ids[i] = core.NewID(core.TypeBJP0, [27]byte{byte(i + 1)})
	}
	state := func(n int) *mt.Hash { return h2m(H{byte(n), 77}) }
	back := map[mt.Hash]int{}
	for n := 0; n < 64; n++ {
		back[*state(n)] = n
	}
	var fresh int64
	var mu sync.Mutex
	txs := map[int]*types.Transaction{}
	var last [2]int64
	good := func(id int, old, new int) []*big.Int {
		var e mt.ElemBytes
		copy(e[:], ids[id-1][:])
		return []*big.Int{e.BigInt(), state(old).BigInt(), state(new).BigInt()}
	}
	const gen = 0
	// the stub's arithmetic changes the form of its operands
	vk2, err := parsers.ParseVk([]byte(`{"kind":"vk","circuit":"idenState","nPublic":3}`))
	must(err)
	ideal := func(in []*big.Int) *zktypes.Proof {
		mu.Lock()
		defer mu.Unlock()
		return verifier.Ideal(vk2.Alpha, in)
	}
	r.fork(h, rnd, 3+rnd.Intn(2), 4, func(w int, wr *rand.Rand) {
		id := 1 + wr.Intn(2)
		s.yield()
		switch x := wr.Intn(12); {
		case x < 2:
			new := int(atomic.AddInt64(&fresh, 1))
			ok := wr.Intn(5) > 0
			p := ideal(good(id, gen, new))
			if !ok {
				p = ideal(good(id, gen, 63))
			}
			m := M{"op": "init", "id": id, "new": new, "good": ok}
			h.do(m, func() func(M) {
				tx, err := loc.InitState(&ids[id-1], state(gen), state(new), p)
				m["res"] = chainErr(err)
				if err == nil {
					mu.Lock()
					txs[new] = tx
					mu.Unlock()
				}
				return nil
			})
		case x < 5:
			new, old := int(atomic.AddInt64(&fresh, 1)), int(atomic.LoadInt64(&last[id-1]))
			p := ideal(good(id, old, new))
			m := M{"op": "set", "id": id, "new": new, "old": old}
			h.do(m, func() func(M) {
				tx, err := loc.SetState(&ids[id-1], state(new), p)
				m["res"] = chainErr(err)
				if err == nil {
					mu.Lock()
					txs[new] = tx
					mu.Unlock()
				}
				return nil
			})
		case x < 8:
			m := M{"op": "sync"}
			h.do(m, func() func(M) { atomic.AddInt64(&now, 1); loc.Sync(); m["res"] = "ok"; return nil })
		case x < 10:
			m := M{"op": "get", "id": id}
			h.do(m, func() func(M) {
				d, err := loc.GetState(&ids[id-1])
				m["val"] = -1
				if err == idenpubonchain.ErrIdenNotOnChain {
					m["val"] = 0
				} else if err == nil {
					if n, ok := back[*d.IdenState]; ok {
						m["val"] = n
						atomic.StoreInt64(&last[id-1], int64(n))
					}
					// a caller may do with the answer what it likes
					*d.IdenState = mt.Hash{}
				}
				return nil
			})
		default:
			mu.Lock()
			var l []int
			for n := range txs {
				l = append(l, n)
			}
			sort.Ints(l)
			if len(l) == 0 {
				mu.Unlock()
				return
			}
			n := l[wr.Intn(len(l))]
			tx := txs[n]
			mu.Unlock()
			m := M{"op": "confirm", "new": n}
			h.do(m, func() func(M) {
				_, err := loc.TxConfirmBlocks(tx)
				switch err {
				case nil:
					m["res"] = "ok"
				case eth.ErrReceiptNotReceived:
					m["res"] = "none"
				case eth.ErrReceiptStatusFailed:
					m["res"] = "failed"
				default:
					m["res"] = okErr(err)
				}
				return nil
			})
		}
	})
}

func chainErr(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == idenpubonchain.ErrIdenNotOnChain:
		return "absent"
	case err.Error() == "zkproof verification failed":
		return "proof"
	case err.Error() == "identity already exists on chain":
		return "exists"
	}
	return okErr(err)
}

func init() {
	commands["concshared"] = func(a []string) { concMain(a, concSharedHistory) }
}
