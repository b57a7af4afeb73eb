package main

import (
	"fmt"
	"time"

	noncedb "github.com/iden3/go-iden3-core/utils/noncedb"
)

// Replays behaviours of Nonce.tla (C19).

// setClock stops the clock of the process at a moment (only with the tag
// verifclock, see clock_on.go).
var setClock func(t time.Time)

// runClock starts a clock that goes on by a step every time it is read.
var runClock func(t time.Time, by time.Duration)

var nonceMany bool

type nonceReplay struct {
	db    *noncedb.NonceDb
	names map[int]string
	seen  map[string]bool
	base  int64
	now   int64
	gen   int
}

func init() {
	modules["nonce"] = func(c *Ctx) Replayer {
		if setClock == nil {
			internal("this binary has no settable clock")
		}
		r := &nonceReplay{db: noncedb.NewNonceDb(), names: map[int]string{}, seen: map[string]bool{}, base: 1600000000 + int64(c.beh)*1000}
		r.tick(0)
		return r
	}
}

func (r *nonceReplay) Close() {}
func (r *nonceReplay) tick(n int64) {
	r.now = n
	setClock(time.Unix(r.base+n, int64(r.gen*37%1000)*1000000))
}

func (r *nonceReplay) name(n int) string {
	if r.names[n] == "" {
		r.names[n] = fmt.Sprintf("nonce-%d", n)
		if n == 1 {
			r.names[n] = "x"
		}
	}
	return r.names[n]
}

func nonceAux(a int) interface{} {
	if a == 0 {
		return nil
	}
	return fmt.Sprintf("data %d", a)
}

func (r *nonceReplay) stored(c *Ctx, o *noncedb.NonceObj, name string, d, a int) {
	c.check(o != nil, "nonce.add", "the nonce %s was not added", name)
	c.check(o.Nonce == name && o.Expiration == r.base+r.now+int64(d) && o.Aux == nonceAux(a), "nonce.add", "added %+v", *o)
	o.Nonce, o.Expiration, o.Aux = "changed", r.base-1e6, "changed" // the caller's
}

func (r *nonceReplay) found(c *Ctx, what string, o *noncedb.NonceObj, ok bool, n int, e M) {
	want := e["ok"] == true
	c.check(ok == want, "nonce."+what, "%s: found %v, expected %v at %d", r.name(n), ok, e, r.now)
	if want {
		c.check(o != nil && o.Nonce == r.name(n) && o.Expiration == r.base+int64(num(e["exp"])) && o.Aux == nonceAux(num(e["aux"])),
			"nonce."+what, "found %+v, expected %v", o, e)
		o.Nonce, o.Expiration, o.Aux = "changed", r.base+1e6, "changed" // the caller's
		c.bump("found")
	}
}

func (r *nonceReplay) all(c *Ctx, x interface{}) {
	for i, e := range arr(x) {
		o, ok := r.db.Search(r.name(i + 1))
		r.found(c, "search", o, ok, i+1, obj(e))
	}
}

func (r *nonceReplay) Step(c *Ctx, s M) {
	n, d, a := 0, 0, 0
	for k, p := range map[string]*int{"n": &n, "d": &d, "a": &a} {
		if s[k] != nil {
			*p = num(s[k])
		}
	}
	r.gen++
	switch str(s["op"]) {
	case "add":
		o := r.db.Add(r.name(n), int64(d), nonceAux(a))
		if s["exp"] == true {
			r.stored(c, o, r.name(n), d, a)
		} else {
			c.check(o == nil, "nonce.add", "a stored nonce was added again: %+v", o)
			c.bump("refused")
		}
	case "readd":
		o := r.db.Add(r.name(n), int64(d), nonceAux(a))
		if o == nil {
			_, ok := r.db.Search(r.name(n))
			c.check(!ok, "nonce.add", "an expired nonce is found")
			r.db.DeleteOld()
			o = r.db.Add(r.name(n), int64(d), nonceAux(a))
		}
		r.stored(c, o, r.name(n), d, a)
	case "new":
		if !nonceMany {
			// that many at once are all different
			nonceMany = true
			db := noncedb.NewNonceDb()
			seen := map[string]bool{}
			for i := 0; i < 400000; i++ {
				o := db.New(1000, nil)
				c.check(o != nil, "nonce.new", "no nonce, with %d stored", i)
				c.check(!seen[o.Nonce], "nonce.new", "a nonce was generated again, after %d", i)
				seen[o.Nonce] = true
			}
			c.bump("many_new")
		}
		o := r.db.New(int64(d), nonceAux(a))
		c.check(o != nil && len(o.Nonce) >= 32 && !r.seen[o.Nonce], "nonce.new", "generated %+v", o)
		r.seen[o.Nonce] = true
		r.names[n] = o.Nonce
		r.stored(c, o, o.Nonce, d, a)
	case "aux":
		ok := r.db.AddAux(r.name(n), nonceAux(a))
		if e := str(s["exp"]); e != "any" {
			c.check(ok == (e == "yes"), "nonce.aux", "attached %v, expected %s", ok, e)
		}
	case "search":
		o, ok := r.db.Search(r.name(n))
		r.found(c, "search", o, ok, n, obj(s["exp"]))
	case "consume":
		o, ok := r.db.SearchAndDelete(r.name(n))
		r.found(c, "consume", o, ok, n, obj(s["exp"]))
	case "many":
		for i := 0; i < num(s["k"]); i++ {
			_, ok := r.db.Search("absent")
			c.check(!ok, "nonce.search", "an absent nonce is found")
		}
		r.all(c, s["exp"])
	case "clean":
		r.db.DeleteOld()
		r.all(c, s["exp"])
	case "tick":
		r.tick(int64(num(s["now"])))
	default:
		internal("unknown step %v", s)
	}
}
