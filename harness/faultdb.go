package main

import (
	"errors"
	"sync"

	"github.com/iden3/go-iden3-core/db"
)

// A storage that forwards to a real backend and can fail or "crash" at a
// chosen operation.  The real backend is the disk; everything else is memory.

var errInjected = errors.New("injected storage fault")

type crashSignal struct{}

type faultCtl struct {
	mu     sync.Mutex
	kind   string // "", "newtx", "get", "txget", "commit", "crash-before", "crash-after"
	nth    int    // fires at the nth matching operation
	sticky bool   // keeps failing after it fired
	fired  bool
	counts map[string]int
	delay  func()
}

func (f *faultCtl) arm(kind string, nth int, sticky bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.kind, f.nth, f.sticky, f.fired = kind, nth, sticky, false
	f.counts = map[string]int{}
}
func (f *faultCtl) disarm() { f.arm("", 0, false) }

// hit tells whether the operation op must fail now.
func (f *faultCtl) hit(op string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.counts == nil {
		f.counts = map[string]int{}
	}
	f.counts[op]++
	if f.kind != op {
		return false
	}
	if f.counts[op] == f.nth || (f.sticky && f.counts[op] >= f.nth) {
		f.fired = true
		return true
	}
	return false
}

type faultStorage struct {
	in  db.Storage
	ctl *faultCtl
}

type faultTx struct {
	in  db.Tx
	ctl *faultCtl
}

func newFaultStorage(in db.Storage) *faultStorage { return &faultStorage{in, &faultCtl{}} }

func (s *faultStorage) NewTx() (db.Tx, error) {
	if s.ctl.hit("newtx") {
		return nil, errInjected
	}
	tx, err := s.in.NewTx()
	if err != nil {
		return nil, err
	}
	return &faultTx{tx, s.ctl}, nil
}
func (s *faultStorage) WithPrefix(p []byte) db.Storage {
	return &faultStorage{s.in.WithPrefix(p), s.ctl}
}
func (s *faultStorage) Get(k []byte) ([]byte, error) {
	if s.ctl.hit("get") {
		return nil, errInjected
	}
	return s.in.Get(k)
}
func (s *faultStorage) List(n int) ([]db.KV, error) { return s.in.List(n) }
func (s *faultStorage) Close()                      { s.in.Close() }
func (s *faultStorage) Info() string                { return s.in.Info() }
func (s *faultStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
	return s.in.Iterate(f)
}
func (t *faultTx) Get(k []byte) ([]byte, error) {
	if t.ctl.hit("txget") {
		return nil, errInjected
	}
	return t.in.Get(k)
}
func (t *faultTx) Put(k, v []byte) { t.in.Put(k, v) }
func (t *faultTx) Add(o db.Tx) {
	if ft, ok := o.(*faultTx); ok {
		o = ft.in
	}
	t.in.Add(o)
}
func (t *faultTx) Commit() error {
	if t.ctl.hit("commit") {
		return errInjected
	}
	if t.ctl.hit("crash-before") {
		panic(crashSignal{})
	}
	if err := t.in.Commit(); err != nil {
		return err
	}
	if t.ctl.hit("crash-after") {
		panic(crashSignal{})
	}
	return nil
}
func (t *faultTx) Close() { t.in.Close() }

// crashes runs f and tells whether an injected crash ended it.
func crashes(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashSignal); ok {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}
