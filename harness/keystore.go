package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// Replays behaviours of KeyStore.tla (C20).

var ksParams = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}

var ksPasses = []string{"passphrase", "", "Passphrase", "passphrase ", "a", "pass\xff\x00word", strings.Repeat("long ", 30), "日本語"}

func ksPass(p int) []byte { return []byte(ksPasses[(p-1)%len(ksPasses)]) }

// nearPass is another passphrase near to p.
func nearPass(p []byte, how string) []byte {
	q := append([]byte{}, p...)
	switch how {
	case "space":
		return append(q, ' ')
	case "front":
		return append([]byte{' '}, q...)
	case "newline":
		return append(q, '\n')
	case "ff":
		return append(q, 0xff)
	case "nul":
		return append(q, 0)
	case "nuls":
		return append(q, 0, 0, 0)
	case "case":
		return bytes.ToUpper(q)
	case "cut":
		if len(q) > 0 {
			q = q[:len(q)-1]
		}
	case "double":
		return append(q, p...)
	case "bit":
		if len(q) > 0 {
			q[len(q)-1] ^= 1
		}
	case "empty":
		return nil
	case "digest":
		if len(q) > 64 {
			d := sha256.Sum256(q)
			return d[:]
		}
	}
	return q
}

func ksSecret(k int) (sk babyjub.PrivateKey) {
	for i := range sk {
		sk[i] = byte(k*31 + i*7)
	}
	if k == 2 {
		for i := range sk {
			sk[i] = 0xff
		}
	}
	return sk
}

var errKs = errors.New("injected key store fault")

// ksStorage forwards to a storage and fails on demand.
type ksStorage struct {
	keystore.Storage
	failWrite, failRead bool
}

func (s *ksStorage) Write(b []byte) error {
	if s.failWrite {
		return errKs
	}
	return s.Storage.Write(b)
}
func (s *ksStorage) Read() ([]byte, error) {
	if s.failRead {
		return nil, errKs
	}
	return s.Storage.Read()
}

type ksReplay struct {
	c     *Ctx
	dir   string
	stors map[int]*ksStorage
	files []int
	hs    []*keystore.KeyStore
	stor  []int // storage object of each handle
	open  []bool
	known map[int]babyjub.PublicKeyComp
	sks   map[int]babyjub.PrivateKey
	opens int
	// what was exported so far
	exported []ksExported
}

func init() {
	modules["keystore"] = func(c *Ctx) Replayer {
		r := &ksReplay{c: c, dir: filepath.Join(c.dir, fmt.Sprintf("ks%d", c.beh)), stors: map[int]*ksStorage{},
			known: map[int]babyjub.PublicKeyComp{}, sks: map[int]babyjub.PrivateKey{}}
		must(os.MkdirAll(r.dir, 0755))
		for _, s := range strings.Split(os.Getenv("STORS"), ",") {
			f, err := strconv.Atoi(s)
			must(err)
			r.files = append(r.files, f)
		}
		mem := map[int]*ksStorage{}
		for i, f := range r.files {
			if c.fl == "mem" {
				if mem[f] == nil {
					mem[f] = &ksStorage{Storage: &keystore.MemStorage{}}
				}
				r.stors[i+1] = mem[f]
			} else {
				r.stors[i+1] = &ksStorage{Storage: keystore.NewFileStorage(r.path(f))}
			}
		}
		return r
	}
	commands["kschild"] = ksChild
}

func (r *ksReplay) path(f int) string { return filepath.Join(r.dir, fmt.Sprintf("keys%d.json", f)) }

func (r *ksReplay) Close() {
	for _, h := range r.hs {
		if h != nil {
			h.Close()
		}
	}
	r.hs = nil
	os.RemoveAll(r.dir)
}

// storage hands the storage itself to half of the openings, and the wrapper
// that can fail to the others.
func (r *ksReplay) storage(s int) keystore.Storage {
	if r.c.fl == "file" {
		return r.stors[s].Storage
	}
	return r.stors[s]
}

func (r *ksReplay) pk(k int) *babyjub.PublicKeyComp {
	if pk, ok := r.known[k]; ok {
		return &pk
	}
	sk := ksSecret(k)
	pk := sk.Public().Compress()
	r.known[k], r.sks[k] = pk, sk
	return &pk
}

func (r *ksReplay) sameKeys(have []babyjub.PublicKeyComp, s M) {
	c := r.c
	must, may := map[babyjub.PublicKeyComp]int{}, map[babyjub.PublicKeyComp]int{}
	for _, k := range arr(s["keys"]) {
		must[*r.pk(num(k))] = num(k)
	}
	for _, k := range arr(s["maybe"]) {
		may[*r.pk(num(k))] = num(k)
	}
	n := 0
	for _, pk := range have {
		if _, ok := must[pk]; ok {
			n++
			continue
		}
		_, ok := may[pk]
		c.check(ok, "ks.keys", "the key store lists %x which was not stored", pk[:4])
		c.bump("interrupted_stored")
	}
	c.check(n == len(must), "ks.keys", "%d of the %d keys are listed (%d in all)", n, len(must), len(have))
}

// limited runs f with a limit on the size of files.
func (r *ksReplay) limited(h int, n int, f func()) {
	lim := uint64(n)
	if fi, err := os.Stat(r.path(r.files[h-1])); err == nil && n == 300 && fi.Size() > 300 {
		lim = uint64(fi.Size() - 1)
	}
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	signal.Ignore(syscall.SIGXFSZ)
	defer signal.Reset(syscall.SIGXFSZ)
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

func (r *ksReplay) Step(c *Ctx, s M) {
	defer r.checkExported()
	var h *keystore.KeyStore
	if s["h"] != nil {
		h = r.hs[num(s["h"])-1]
	}
	k, p := 0, 0
	if s["k"] != nil {
		k = num(s["k"])
	}
	if s["p"] != nil {
		p = num(s["p"])
	}
	switch str(s["op"]) {
	case "open":
		r.opens++
		if c.fl != "file" && r.opens%3 == 0 { // first, a storage that cannot be read
			st := r.stors[num(s["s"])]
			st.failRead = true
			_, err := keystore.NewKeyStore(st, ksParams)
			st.failRead = false
			c.check(err != nil, "ks.open", "opened a storage that cannot be read")
			c.bump("readfail")
		}
		h, err := keystore.NewKeyStore(r.storage(num(s["s"])), ksParams)
		if s["exp"] == "lock" {
			c.check(err == keystore.ErrStorageLock, "ks.owner", "opened a file that another key store owns: %v", err)
			c.bump("contended")
			return
		}
		c.check(err == nil, "ks.open", "opening a free file: %v", err)
		r.hs, r.stor, r.open = append(r.hs, h), append(r.stor, num(s["s"])), append(r.open, true)
		r.sameKeys(h.Keys(), s)
	case "close":
		err := h.Close()
		r.open[num(s["h"])-1] = false
		if s["first"] == true {
			c.check(err == nil, "ks.close", "closing: %v", err)
		}
	case "gc":
		// handles closed long ago are forgotten
		for i := range r.hs {
			if r.hs[i] != nil && i+6 < len(r.hs) && !r.open[i] {
				r.hs[i] = nil
			}
		}
		for i := 0; i < 2; i++ {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
	case "new", "import":
		var pk *babyjub.PublicKeyComp
		var err error
		pass := ksPass(p)
		f := func() {
			if str(s["op"]) == "new" {
				pk, err = h.NewKey(pass)
			} else {
				r.pk(k)
				pk, err = h.ImportKey(r.sks[k], pass)
			}
		}
		if s["fault"] == "write" {
			if c.fl == "file" {
				r.limited(r.stor[num(s["h"])-1], num(s["n"]), f)
			} else {
				r.stors[r.stor[num(s["h"])-1]].failWrite = true
				f()
				r.stors[r.stor[num(s["h"])-1]].failWrite = false
			}
			c.bump("writefail")
		} else {
			f()
		}
		if s["exp"] == "err" {
			c.check(err != nil, "ks.stored", "a key that was not stored is reported as stored")
			return
		}
		c.check(err == nil, "ks.import", "storing a key: %v", err)
		if str(s["op"]) == "new" {
			for _, o := range r.known {
				c.check(o != *pk, "ks.new", "a created key exists already")
			}
			r.known[k] = *pk
		} else {
			c.check(*pk == *r.pk(k), "ks.import", "imported key %x reported as %x", *r.pk(k), *pk)
		}
	case "unlock":
		err := h.UnlockKey(r.pk(k), ksPass(p))
		switch s["exp"] {
		case "ok":
			c.check(err == nil, "ks.unlock", "its passphrase does not unlock key %d: %v", k, err)
		case "absent":
			c.check(err == keystore.ErrKeyNotFound, "ks.unlock", "unlocking an absent key: %v", err)
		default:
			c.check(err == keystore.ErrInvalidEncData, "ks.passphrase", "another passphrase on key %d: %v", k, err)
			c.bump("wrongpass")
		}
	case "near":
		q := nearPass(ksPass(p), str(s["how"]))
		if bytes.Equal(q, ksPass(p)) {
			return
		}
		c.bump("near_" + str(s["how"]))
		err := h.UnlockKey(r.pk(k), q)
		if err == nil && (str(s["how"]) == "nul" || str(s["how"]) == "nuls" || str(s["how"]) == "digest") {
			what := "the SHA-256 digest of that"
			if str(s["how"]) != "digest" {
				what = fmt.Sprintf("%q", q)
			}
			c.check(false, "ks.derived", "the key with passphrase %q is unlocked by %s", ksPass(p), what)
		}
		c.check(err == keystore.ErrInvalidEncData, "ks.passphrase", "the key %d with passphrase %q: %q gives %v", k, ksPass(p), q, err)
		enc, e := keystore.EncryptData([]byte("data"), ksPass(p), ksParams.ScryptN, ksParams.ScryptP)
		must(e)
		_, e = keystore.DecryptData(enc, q)
		c.check(e != nil, "ks.passphrase", "data encrypted with passphrase %q is decrypted with %q", ksPass(p), q)
	case "export":
		sk, err := h.ExportKey(r.pk(k))
		if s["exp"] != "ok" {
			c.check(err == keystore.ErrKeyNotInCache && sk == nil, "ks.locked", "a locked key is exported: %v %v", sk, err)
			return
		}
		c.check(err == nil && sk != nil, "ks.export", "an unlocked key is not exported: %v", err)
		r.secret(k, *sk)
		// it is the caller's: it stays, and what becomes of it has no effect
		r.exported = append(r.exported, ksExported{k, sk, *sk})
		if again, err := h.ExportKey(r.pk(k)); err == nil {
			for i := range again {
				again[i] = 0
			}
		}
	case "sign":
		msg := big.NewInt(int64(c.step*1000 + k))
		raw := []byte(fmt.Sprintf("message %d", c.step))
		sig, err := h.SignElem(r.pk(k), msg)
		sigRaw, err1 := h.SignRaw(r.pk(k), raw)
		sigD, date, err2 := h.Sign(r.pk(k), keystore.PrefixMinorUpdate, raw)
		if s["exp"] != "ok" {
			c.check(err == keystore.ErrKeyNotInCache && err1 == keystore.ErrKeyNotInCache && err2 == keystore.ErrKeyNotInCache && sig == nil && sigRaw == nil && sigD == nil,
				"ks.locked", "a locked key signs: %v %v %v", err, err1, err2)
			return
		}
		c.check(err == nil && err1 == nil && err2 == nil, "ks.sign", "an unlocked key does not sign: %v %v %v", err, err1, err2)
		ok, err := keystore.VerifySignatureElem(r.pk(k), msg, sig)
		c.check(ok && err == nil, "ks.sign", "the signature does not verify: %v", err)
		ok, err = keystore.VerifySignatureRaw(r.pk(k), sigRaw, raw)
		c.check(ok && err == nil, "ks.sign", "the raw signature does not verify: %v", err)
		ok, err = keystore.VerifySignature(r.pk(k), sigD, keystore.PrefixMinorUpdate, date, raw)
		c.check(ok && err == nil, "ks.sign", "the dated signature does not verify: %v", err)
	case "keys":
		r.sameKeys(h.Keys(), s)
	case "proctry":
		type kp struct{ Pk, Pass string }
		var kps []kp
		var keys []interface{}
		for _, x := range arr(s["disk"]) {
			q := obj(x)
			pk := r.pk(num(q["k"]))
			kps = append(kps, kp{hex.EncodeToString(pk[:]), hex.EncodeToString(ksPass(num(q["p"])))})
			keys = append(keys, q["k"])
		}
		b, err := json.Marshal(kps)
		must(err)
		out := r.child(nil, "try", r.path(num(s["f"])), string(b))
		if s["exp"] == "lock" {
			c.check(out == "lock", "ks.owner", "another process opens an owned file: %s", out)
			return
		}
		c.check(out == "ok" || strings.HasPrefix(out, "ok "), "ks.process", "another process opening a free file: %s", out)
		var have []babyjub.PublicKeyComp
		for _, x := range strings.Fields(out)[1:] {
			var pk babyjub.PublicKeyComp
			b, err := hex.DecodeString(x)
			must(err)
			copy(pk[:], b)
			have = append(have, pk)
		}
		s["keys"] = keys
		r.sameKeys(have, s)
	case "procimport":
		r.pk(k)
		sk := r.sks[k]
		out := r.child(nil, "import", r.path(num(s["f"])), hex.EncodeToString(sk[:]), hex.EncodeToString(ksPass(p)), "-1")
		c.check(out == "stored", "ks.process", "another process storing a key: %s", out)
	case "proccrash":
		r.pk(k)
		sk := r.sks[k]
		out := r.child(nil, "import", r.path(num(s["f"])), hex.EncodeToString(sk[:]), hex.EncodeToString(ksPass(1)), fmt.Sprint(num(s["n"])))
		c.check(out == "" || out == "stored", "ks.process", "interrupted process: %s", out)
		if out == "" {
			c.bump("interrupted")
			c.bump(fmt.Sprintf("interrupted_%d", num(s["n"])))
		}
	case "junk":
		r.junk(c, num(s["f"]), num(s["n"]))
	case "enc":
		data := bytes.Repeat([]byte{byte(c.step), 0, 0xff}, num(s["n"]))[:num(s["n"])]
		e, err := keystore.EncryptData(data, ksPass(p), 2, 1)
		c.check(err == nil, "ks.enc", "%v", err)
		js, err := json.Marshal(e)
		c.check(err == nil, "ks.enc", "%v", err)
		var e2 keystore.EncryptedData
		c.check(json.Unmarshal(js, &e2) == nil, "ks.enc", "the encrypted data cannot be read back")
		got, err := keystore.DecryptData(&e2, ksPass(num(s["q"])))
		if s["exp"] == true {
			c.check(err == nil && bytes.Equal(got, data), "ks.enc", "decrypted %x (%v), not %x", got, err, data)
		} else {
			c.check(err == keystore.ErrInvalidEncData, "ks.enc", "decrypted with another passphrase: %v", err)
		}
		for i := 0; i < 3; i++ {
			alt := e2
			alt.Salt, alt.Nonce, alt.EncryptedData = append([]byte{}, e2.Salt...), append([]byte{}, e2.Nonce...), append([]byte{}, e2.EncryptedData...)
			b := [][]byte{alt.Salt, alt.Nonce, alt.EncryptedData}[i]
			b[(c.step*7)%len(b)] ^= 1 << uint(c.step%8)
			_, err := keystore.DecryptData(&alt, ksPass(p))
			c.check(err == keystore.ErrInvalidEncData, "ks.enc", "altered encrypted data (%d) accepted: %v", i, err)
		}
		e2.EncryptedData = e2.EncryptedData[:len(e2.EncryptedData)-1]
		_, err = keystore.DecryptData(&e2, ksPass(p))
		c.check(err == keystore.ErrInvalidEncData, "ks.enc", "cut encrypted data accepted: %v", err)
	default:
		internal("unknown step %v", s)
	}
}

type ksExported struct {
	k    int
	sk   *babyjub.PrivateKey
	want babyjub.PrivateKey
}

func (r *ksReplay) checkExported() {
	for _, e := range r.exported {
		r.c.check(*e.sk == e.want, "ks.export", "the secret of key %d changed after it was exported, to %x", e.k, *e.sk)
	}
}

func (r *ksReplay) secret(k int, sk babyjub.PrivateKey) {
	pk := sk.Public().Compress()
	r.c.check(pk == *r.pk(k), "ks.export", "the exported secret of key %d belongs to %x", k, pk)
	if want, ok := r.sks[k]; ok {
		r.c.check(want == sk, "ks.export", "the exported secret differs")
	}
}

func (r *ksReplay) junk(c *Ctx, f, n int) {
	path := r.path(f)
	old, err := ioutil.ReadFile(path)
	had := err == nil
	var b []byte
	switch n {
	case 1:
		b = []byte("{")
	case 2:
		b = []byte("[]")
	case 3:
		b = []byte("\x00\xff\x10garbage")
	case 4:
		if len(old) < 2 {
			old = []byte("{}")
		}
		b = old[:len(old)/2]
	case 5:
		b = []byte(`{"zz":{"Salt":"0x00"}}`)
	case 6:
		b = []byte("null")
	}
	must(ioutil.WriteFile(path, b, 0600))
	h, err := keystore.NewKeyStore(keystore.NewFileStorage(path), ksParams)
	if n != 6 {
		c.check(err != nil, "ks.junk", "a damaged file is opened as a key store: %q", b)
	}
	if err == nil {
		_, err := h.NewKey([]byte("x"))
		c.check(err == nil, "ks.junk", "storing a key: %v", err)
		c.check(h.Close() == nil, "ks.junk", "closing")
	}
	if had {
		must(ioutil.WriteFile(path, old, 0600))
	} else {
		must(os.Remove(path))
	}
	h, err = keystore.NewKeyStore(keystore.NewFileStorage(path), ksParams)
	c.check(err == nil, "ks.junk", "the file is not free after a failed opening: %v", err)
	c.check(h.Close() == nil, "ks.junk", "closing")
}

// child runs another process on a key store file.
func (r *ksReplay) child(env []string, args ...string) string {
	cmd := exec.Command(os.Args[0], append([]string{"kschild"}, args...)...)
	cmd.Env = append(os.Environ(), env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "CHILD ") {
			return strings.TrimSpace(l[6:])
		}
	}
	ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if err == nil || !ok || !ws.Signaled() {
		r.c.check(false, "ks.process", "the other process ended: %v\n%s", err, errb.String())
	}
	return ""
}

// defaultAction undoes the handler that the Go runtime installed for a signal.
func defaultAction(sig syscall.Signal) {
	var act [4]uint64
	if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(sig), uintptr(unsafe.Pointer(&act)), 0, 8, 0, 0); e != 0 {
		internal("rt_sigaction: %v", e)
	}
}

// killAt makes the process end at the first of these system calls (a seccomp
// filter of the process itself).
func killAt(nrs []uint32) {
	type ins struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	prog := []ins{{0x20, 0, 0, 0}} // the number of the call
	for _, nr := range nrs {
		prog = append(prog, ins{0x15, 0, 1, nr}, ins{0x06, 0, 0, 0x80000000})
	}
	prog = append(prog, ins{0x06, 0, 0, 0x7fff0000})
	fprog := struct {
		n uint16
		p *ins
	}{uint16(len(prog)), &prog[0]}
	runtime.LockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		internal("no_new_privs: %v", e)
	}
	if _, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&fprog))); e != 0 {
		internal("seccomp: %v", e)
	}
}

func ksChild(args []string) {
	st := keystore.NewFileStorage(args[1])
	switch args[0] {
	case "try":
		h, err := keystore.NewKeyStore(st, ksParams)
		if err == keystore.ErrStorageLock {
			fmt.Println("CHILD lock")
			return
		}
		if err != nil {
			fmt.Println("CHILD error", err)
			return
		}
		var kps []struct{ Pk, Pass string }
		must(json.Unmarshal([]byte(args[2]), &kps))
		for _, x := range kps {
			var pk babyjub.PublicKeyComp
			b, _ := hex.DecodeString(x.Pk)
			copy(pk[:], b)
			pass, _ := hex.DecodeString(x.Pass)
			if err := h.UnlockKey(&pk, pass); err != nil {
				fmt.Println("CHILD cannot unlock", x.Pk, err)
				return
			}
			sk, err := h.ExportKey(&pk)
			if err != nil || sk.Public().Compress() != pk {
				fmt.Println("CHILD wrong secret", x.Pk, err)
				return
			}
		}
		var l []string
		for _, pk := range h.Keys() {
			l = append(l, hex.EncodeToString(pk[:]))
		}
		sort.Strings(l)
		if err := h.Close(); err != nil {
			fmt.Println("CHILD cannot close", err)
			return
		}
		fmt.Println("CHILD ok", strings.Join(l, " "))
	case "import":
		h, err := keystore.NewKeyStore(st, ksParams)
		if err != nil {
			fmt.Println("CHILD error", err)
			return
		}
		var sk babyjub.PrivateKey
		b, _ := hex.DecodeString(args[2])
		copy(sk[:], b)
		pass, _ := hex.DecodeString(args[3])
		n, _ := strconv.Atoi(args[4])
		if n <= -2 { // the process ends at a system call
			killAt(map[int][]uint32{-2: {82, 264, 316}, -3: {74, 75}, -4: {87, 263}, -5: {3}}[n])
		}
		if n >= 0 { // the process ends when a file grows beyond n bytes
			defaultAction(syscall.SIGXFSZ)
			var old syscall.Rlimit
			must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
		}
		if _, err := h.ImportKey(sk, pass); err != nil {
			fmt.Println("CHILD error", err)
			return
		}
		fmt.Println("CHILD stored")
		os.Exit(0) // without closing
	}
}
