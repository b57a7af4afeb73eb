package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
)

// genReplay follows spec/NonceGen.tla.
type genReplay struct {
	raw, st  db.Storage
	dir      string
	tx       db.Tx
	gens     []*issuer.UniqueNonceGen
	idx      []*db.StorageValue
	max, far int
}

func init() { modules["noncegen"] = newNonceGen }

func newNonceGen(c *Ctx) Replayer {
	r := &genReplay{}
	if strings.HasPrefix(c.fl, "level") {
		r.dir = filepath.Join(c.dir, fmt.Sprintf("ng-%d", c.beh))
		s, err := db.NewLevelDbStorage(r.dir, false)
		must(err)
		r.raw = s
	} else {
		r.raw = db.NewMemoryStorage()
	}
	r.view(c)
	return r
}

func (r *genReplay) view(c *Ctx) {
	r.st = r.raw
	if strings.HasSuffix(c.fl, "prefix") {
		r.st = r.raw.WithPrefix([]byte("id:"))
	}
	r.gens, r.idx = nil, nil
	for _, k := range []string{"idx", "idx2", "i"} {
		v := db.NewStorageValue([]byte(k))
		r.idx = append(r.idx, v)
		r.gens = append(r.gens, issuer.NewUniqueNonceGen(v))
	}
}

func (r *genReplay) Close() {
	if r.dir != "" {
		r.raw.Close()
		os.RemoveAll(r.dir)
	}
}

const genMax, genFar = 1000000000, 900000000

// nonceOf turns a nonce of the specification into the real one.
func nonceOf(n int) uint32 {
	if n >= genFar {
		return math.MaxUint32 - uint32(genMax-n)
	}
	return uint32(n)
}

func (r *genReplay) Step(c *Ctx, s M) {
	var g int
	if s["g"] != nil {
		g = num(s["g"]) - 1
	}
	switch c.op {
	case "begin":
		tx, err := r.st.NewTx()
		must(err)
		r.tx = tx
	case "init":
		r.gens[g].Init(r.tx)
	case "jump":
		r.idx[g].Set(r.tx, math.MaxUint32-uint32(num(s["left"])))
	case "next":
		n := num(s["n"])
		got, errs := make([]uint32, n), make([]error, n)
		if par, _ := s["par"].(bool); par {
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(i int) { defer wg.Done(); got[i], errs[i] = r.gens[g].Next(r.tx) }(i)
			}
			wg.Wait()
			c.bump("parallel")
		} else {
			for i := 0; i < n; i++ {
				got[i], errs[i] = r.gens[g].Next(r.tx)
			}
		}
		var have, want []uint32
		refused := 0
		for i := range got {
			if errs[i] != nil {
				refused++
				c.bump("refused")
			} else {
				have = append(have, got[i])
			}
		}
		for _, x := range arr(s["got"]) {
			want = append(want, nonceOf(num(x)))
		}
		for _, l := range [][]uint32{have, want} {
			l := l
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		}
		c.check(fmt.Sprint(have) == fmt.Sprint(want) && refused == num(s["refused"]), "id.noncegen",
			"%d nonces from generator %d: %v and %d refusals, want %v and %d", n, g, have, refused, want, num(s["refused"]))
	case "commit":
		c.check(r.tx.Commit() == nil, "id.noncegen", "commit failed")
	case "abort":
		r.tx.Close()
	case "reopen":
		if r.dir != "" {
			r.raw.Close()
			st, err := db.NewLevelDbStorage(r.dir, true)
			must(err)
			r.raw = st
		}
		r.view(c)
	default:
		internal("op %s", c.op)
	}
}
