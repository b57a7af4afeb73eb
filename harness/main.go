package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	log "github.com/sirupsen/logrus"
)

// Fail is one disagreement between the specification and the code.
type Fail struct {
	Sig       string `json:"sig"` // stable identifier of what failed
	Behaviour int    `json:"behaviour"`
	Step      int    `json:"step"`
	Op        string `json:"op"`
	Detail    string `json:"detail"`
}

// Result summarizes a replay.
type Result struct {
	Behaviours int            `json:"behaviours"`
	Steps      int            `json:"steps"`
	Checks     int            `json:"checks"`
	Ops        map[string]int `json:"ops"`
	Fails      []Fail         `json:"fails"`
	Extra      map[string]int `json:"extra,omitempty"`
}

// Ctx is what a module's replayer works with.
type Ctx struct {
	res   *Result
	beh   int
	step  int
	op    string
	fl    string          // flavour of the concretization
	only  map[string]bool // signature prefixes to check (nil: all)
	seed  int64
	dir   string // scratch directory
	abort bool
}

type abortBehaviour struct{}

// check records one comparison; a false one ends the behaviour.
func (c *Ctx) check(ok bool, sig, format string, args ...interface{}) {
	if c.only != nil {
		keep := false
		for p := range c.only {
			if strings.HasPrefix(sig, p) {
				keep = true
			}
		}
		if !keep {
			if !ok { // not this check's business, but the behaviour cannot go on
				c.bump("foreign_disagreements")
				panic(abortBehaviour{})
			}
			return
		}
	}
	c.res.Checks++
	if !ok {
		c.res.Fails = append(c.res.Fails, Fail{sig, c.beh, c.step, c.op, fmt.Sprintf(format, args...)})
		panic(abortBehaviour{})
	}
}

func (c *Ctx) bump(k string) {
	if c.res.Extra == nil {
		c.res.Extra = map[string]int{}
	}
	c.res.Extra[k]++
}

// internal reports a defect of the harness itself: never a verdict.
func internal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "%s", debug.Stack())
		internal("%v", err)
	}
}

// M is a decoded JSON object.
type M = map[string]interface{}

func num(x interface{}) int {
	f, ok := x.(float64)
	if !ok {
		internal("not a number: %v", x)
	}
	return int(f)
}
func str(x interface{}) string { s, _ := x.(string); return s }
func arr(x interface{}) []interface{} {
	a, ok := x.([]interface{})
	if !ok && x != nil {
		internal("not an array: %v", x)
	}
	return a
}
func obj(x interface{}) M {
	a, ok := x.(M)
	if !ok {
		internal("not an object: %v", x)
	}
	return a
}

// Replayer runs the steps of one behaviour against the real code.
type Replayer interface {
	Step(c *Ctx, s M)
	Close()
}

var modules = map[string]func(c *Ctx) Replayer{}

// guard runs f, turning a panic of the code under test into a failed check.
func guard(c *Ctx, sig string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case abortBehaviour, crashSignal:
				panic(r)
			}
			st := string(debug.Stack())
			c.check(false, sig, "panic: %v\n%s", r, st)
		}
	}()
	f()
}

// watchdog ends the process with a failed check when the code under test does
// not return from one step.
func (c *Ctx) watchdog(mod string) func() {
	t := time.AfterFunc(stepLimit, func() {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		c.res.Fails = append(c.res.Fails, Fail{mod + ".hang", c.beh, c.step, c.op,
			"no return within " + stepLimit.String() + "\n" + string(buf)})
		b, _ := json.Marshal(c.res)
		fmt.Println("RESULT " + string(b))
		os.Exit(0)
	})
	return func() { t.Stop() }
}

const stepLimit = 120 * time.Second

func replay(mod, file string, c *Ctx, max int) {
	mk, ok := modules[mod]
	if !ok {
		internal("no module %s", mod)
	}
	f, err := os.Open(file)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" {
			continue
		}
		var steps []M
		if err := json.Unmarshal([]byte(line), &steps); err != nil {
			internal("bad behaviour: %v", err)
		}
		nf := len(c.res.Fails)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abortBehaviour); !ok {
						panic(r)
					}
				}
			}()
			c.step, c.op = -1, "setup"
			rp := mk(c)
			defer rp.Close()
			for i, s := range steps {
				c.step, c.op = i, str(s["op"])
				stop := c.watchdog(mod)
				defer stop()
				guard(c, mod+".panic", func() { rp.Step(c, s) })
				stop()
				c.res.Steps++
				c.res.Ops[c.op]++
			}
		}()
		c.res.Behaviours++
		c.beh++
		if len(c.res.Fails)-nf > 0 && len(c.res.Fails) >= max {
			break
		}
	}
	must(sc.Err())
}

func main() {
	log.SetOutput(ioutil.Discard)
	if len(os.Args) < 2 {
		internal("usage")
	}
	switch os.Args[1] {
	case "mktable":
		mktable(os.Args[2], 1<<20)
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		mod := fs.String("module", "", "")
		in := fs.String("in", "", "")
		fl := fs.String("flavour", "", "")
		only := fs.String("only", "", "comma separated signature prefixes")
		seed := fs.Int64("seed", 1, "")
		max := fs.Int("max", 50, "stop after so many failed behaviours")
		must(fs.Parse(os.Args[2:]))
		c := &Ctx{res: &Result{Ops: map[string]int{}}, fl: *fl, seed: *seed}
		if *only != "" {
			c.only = map[string]bool{}
			for _, p := range strings.Split(*only, ",") {
				c.only[p] = true
			}
		}
		dir, err := ioutil.TempDir("", "vh")
		must(err)
		c.dir = dir
		replay(*mod, *in, c, *max)
		os.RemoveAll(dir)
		sort.SliceStable(c.res.Fails, func(i, j int) bool { return c.res.Fails[i].Sig < c.res.Fails[j].Sig })
		b, _ := json.Marshal(c.res)
		fmt.Println("RESULT " + string(b))
	default:
		if f, ok := commands[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		internal("unknown command %s", os.Args[1])
	}
}

var commands = map[string]func(args []string){}
