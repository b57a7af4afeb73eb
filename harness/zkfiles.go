package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	zkutils "github.com/iden3/go-iden3-core/utils/zk"
)

// Replays behaviours of Zk.tla (C22).

var zkFormats = []zkutils.ProvingKeyFormat{zkutils.ProvingKeyFormatJSON, zkutils.ProvingKeyFormatBin, zkutils.ProvingKeyFormatGoBin}

func zkNames(format zkutils.ProvingKeyFormat) [4]string {
	return [4]string{"", fmt.Sprintf("proving_key.%v", format), "verification_key.json", "circuit.wasm"}
}

// zkServer serves the files of one behaviour at a time.
type zkServer struct {
	mu      sync.Mutex
	url     string
	names   [4]string
	good    [4][]byte
	other   [4][]byte
	mode    [4]string
	fails   int // so many requests fail first
	failing string
	slow    bool
	stalled chan bool
	release chan bool
}

var zkSrv *zkServer

func getZkServer() *zkServer {
	if zkSrv != nil {
		return zkSrv
	}
	s := &zkServer{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s.url = "http://" + l.Addr().String()
	hs := &http.Server{Handler: s}
	hs.SetKeepAlivesEnabled(false) // each transfer of the client uses a transport of its own
	go hs.Serve(l)                 //nolint:errcheck
	zkSrv = s
	return s
}

func (s *zkServer) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	s.mu.Lock()
	f := 0
	for i := 1; i <= 3; i++ {
		if strings.HasSuffix(q.URL.Path, "/"+s.names[i]) {
			f = i
		}
	}
	if f == 0 {
		s.mu.Unlock()
		w.WriteHeader(404)
		return
	}
	mode, b, other, slow := s.mode[f], s.good[f], s.other[f], s.slow
	stalled, release := s.stalled, s.release
	if s.fails > 0 {
		s.fails--
		mode = s.failing
	}
	s.mu.Unlock()
	raw := func(head string, body []byte) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		fmt.Fprint(c, head)
		c.Write(body) //nolint:errcheck
		c.Close()
	}
	flush := func() { w.(http.Flusher).Flush() }
	switch mode {
	case "good":
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		if slow {
			for i := 0; i < 4; i++ {
				w.Write(b[i*len(b)/4 : (i+1)*len(b)/4]) //nolint:errcheck
				flush()
				time.Sleep(3 * time.Millisecond)
			}
			return
		}
		w.Write(b) //nolint:errcheck
	case "404":
		w.WriteHeader(404)
		w.Write(b) //nolint:errcheck
	case "500":
		w.WriteHeader(500)
	case "close":
		raw("", nil)
	case "cut":
		raw(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(b)), b[:len(b)/2])
	case "cutchunk":
		raw(fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(b)-1, b[:len(b)-1]), nil)
	case "redirect":
		http.Redirect(w, q, q.URL.Path, 302)
	case "bad":
		x := append([]byte{}, b...)
		x[len(x)-2] ^= 1
		w.Write(x) //nolint:errcheck
	case "other":
		w.Write(other) //nolint:errcheck
	case "short":
		raw("HTTP/1.0 200 OK\r\n\r\n", b[:len(b)/2])
	case "empty":
		w.WriteHeader(200)
	case "stall":
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		w.Write(b[:len(b)/2]) //nolint:errcheck
		flush()
		stalled <- true
		<-release
	default:
		internal("mode %s", mode)
	}
}

type zkInst struct {
	z     *zkutils.ZkFiles
	wrong map[int]bool
}

type zkReplay struct {
	c      *Ctx
	s      *zkServer
	dir    string
	format zkutils.ProvingKeyFormat
	zs     []zkInst
	n      int // of the behaviour, in the contents
	wrongs int
}

func init() {
	modules["zkfiles"] = func(c *Ctx) Replayer {
		r := &zkReplay{c: c, s: getZkServer(), dir: filepath.Join(c.dir, fmt.Sprintf("zk%d", c.beh), "files"), n: c.beh + 5}
		r.format = zkFormats[c.beh%3]
		r.s.mu.Lock()
		r.s.names = zkNames(r.format)
		r.s.good = [4][]byte{nil, []byte(fmt.Sprintf(`{"kind":"pk","circuit":"c","nPublic":%d,"pad":%q}`, r.n, strings.Repeat("p", 40000))),
			[]byte(fmt.Sprintf(`{"kind":"vk","circuit":"c","nPublic":%d} `, r.n)), bytes.Repeat([]byte{0, 'a', 's', 'm', byte(r.n)}, 20000)}
		r.s.other = [4][]byte{nil, []byte(fmt.Sprintf(`{"kind":"pk","circuit":"c","nPublic":%d,"pad":%q}`, r.n+1, strings.Repeat("p", 40000))),
			[]byte(fmt.Sprintf(`{"kind":"vk","circuit":"c","nPublic":%d} `, r.n+1)), bytes.Repeat([]byte{0, 'a', 's', 'm', byte(r.n + 1)}, 20000)}
		r.s.mode = [4]string{"", "good", "good", "good"}
		r.s.fails, r.s.slow = 0, false
		r.s.mu.Unlock()
		return r
	}
	commands["zkchild"] = zkChild
}

func (r *zkReplay) Close() { os.RemoveAll(filepath.Dir(r.dir)) }

func (r *zkReplay) path(f int) string { return filepath.Join(r.dir, r.s.names[f]) }

func (r *zkReplay) hashes(wrong map[int]bool) zkutils.ZkFilesHashes {
	h := func(f int) string {
		x := sha256.Sum256(r.s.good[f])
		good := hex.EncodeToString(x[:])
		if wrong[f] {
			r.wrongs++
			alt := "0"
			if good[len(good)-1] == '0' {
				alt = "1"
			}
			y := sha256.Sum256(nil)
			return []string{good[:len(good)-1] + alt, good[:62], "", strings.Repeat(alt, 64), good + "00", hex.EncodeToString(y[:16]), good[:63] + "g"}[r.wrongs%7]
		}
		return good
	}
	return zkutils.ZkFilesHashes{ProvingKey: h(1), VerificationKey: h(2), WitnessCalcWASM: h(3)}
}

func (r *zkReplay) instance(cache bool, wrong map[int]bool) *zkutils.ZkFiles {
	return zkutils.NewZkFiles(r.s.url+"/x", r.dir, r.format, r.hashes(wrong), cache)
}

// genuine tells whether z hands out the genuine file f.
func zkGenuine(z *zkutils.ZkFiles, f, n int, wasm []byte) (string, error) {
	switch f {
	case 1:
		pk, err := z.ProvingKey()
		if err != nil {
			return "", err
		}
		if pk == nil || pk.NPublic != n {
			return fmt.Sprintf("a proving key that is not the genuine one: %+v", pk), nil
		}
	case 2:
		vk, err := z.VerificationKey()
		if err != nil {
			return "", err
		}
		if vk == nil || len(vk.IC) != n+1 {
			return fmt.Sprintf("a verification key that is not the genuine one: %+v", vk), nil
		}
	case 3:
		b, err := z.WitnessCalcWASM()
		if err != nil {
			return "", err
		}
		if !bytes.Equal(b, wasm) {
			return fmt.Sprintf("a witness program that is not the genuine one (%d bytes)", len(b)), nil
		}
	}
	return "ok", nil
}

func (r *zkReplay) ask(z *zkutils.ZkFiles, op string, f int) error {
	switch op {
	case "download":
		return []func() error{z.DownloadProvingKey, z.DownloadVerificationKey, z.DownloadWitnessCalcWASM}[f-1]()
	case "load":
		return []func() error{z.LoadProvingKey, z.LoadVerificationKey, z.LoadWitnessCalcWASM}[f-1]()
	case "loadall":
		return z.LoadAll()
	case "downloadall":
		return z.DownloadAll()
	}
	res, err := zkGenuine(z, f, r.n, r.s.good[3])
	r.c.check(err != nil || res == "ok", "zk.genuine", "handed out %s", res)
	return err
}

func (r *zkReplay) state(f int) string {
	b, err := ioutil.ReadFile(r.path(f))
	if os.IsNotExist(err) {
		return "absent"
	}
	must(err)
	if bytes.Equal(b, r.s.good[f]) {
		return "good"
	}
	return "bad"
}

func (r *zkReplay) forget(f int) {
	if err := os.Remove(r.path(f)); !os.IsNotExist(err) {
		must(err)
	}
}

func (r *zkReplay) serve(f int, m string) {
	r.s.mu.Lock()
	r.s.mode[f] = m
	r.s.mu.Unlock()
}

func (r *zkReplay) Step(c *Ctx, s M) {
	f := 0
	if s["f"] != nil {
		f = num(s["f"])
	}
	var in zkInst
	if s["z"] != nil {
		in = r.zs[num(s["z"])-1]
	}
	op := str(s["op"])
	switch op {
	case "new":
		w := map[int]bool{}
		for _, x := range arr(s["wrong"]) {
			w[num(x)] = true
		}
		r.zs = append(r.zs, zkInst{r.instance(s["cache"].(bool), w), w})
	case "serve":
		r.serve(f, str(s["m"]))
	case "touch":
		must(os.MkdirAll(r.dir, 0700))
		g := r.s.good[f]
		var b []byte
		switch str(s["how"]) {
		case "remove":
			r.forget(f)
			return
		case "restore":
			b = g
		case "flip":
			b = append([]byte{}, g...)
			b[c.step*97%len(b)] ^= 1 << uint(c.step%8)
		case "cut":
			b = g[:len(g)-1-c.step*31%len(g)]
		case "other":
			b = r.s.other[f]
		case "space":
			b = append(append([]byte{}, g...), ' ')
		}
		must(ioutil.WriteFile(r.path(f), b, 0600))
	case "get", "load", "download":
		err := r.ask(in.z, op, f)
		switch str(s["exp"]) {
		case "ok":
			c.check(err == nil, "zk.refused", "%s of file %d: %v", op, f, err)
		case "err":
			c.check(err != nil, "zk.hash", "%s of file %d succeeds: file %s, server %s, wrong expectation %v", op, f, r.state(f), r.s.mode[f], in.wrong[f])
			c.bump("refused")
		case "safe":
			// whatever it does, what is handed out is the genuine file
			if op == "load" && err == nil {
				r.ask(in.z, "get", f) //nolint:errcheck
			}
			r.forget(f)
			c.bump("vanished")
		case "wrong":
			fresh := r.instance(true, map[int]bool{})
			for _, z := range []*zkutils.ZkFiles{in.z, in.z, fresh, fresh} {
				for _, o := range []string{op, "get", "load", "download", "get"} {
					if z == in.z && s["held"].(bool) && o != "download" {
						continue // what it read before, it may hand out
					}
					err = r.ask(z, o, f)
					c.check(err != nil, "zk.hash", "%s of file %d succeeds on other bytes (server %s)", o, f, r.s.mode[f])
				}
			}
			was := r.s.mode[f]
			r.serve(f, "good")
			r.ask(in.z, "get", f)                              //nolint:errcheck
			r.ask(r.instance(false, map[int]bool{}), "get", f) //nolint:errcheck
			r.serve(f, was)
			r.forget(f)
			c.bump("wrong_bytes")
		}
	case "loadall", "downloadall":
		err := r.ask(in.z, op, 0)
		c.check((err == nil) == (s["exp"] == "ok"), "zk.all", "%s: %v, expected %v", op, err, s["exp"])
	case "insecure":
		err := in.z.InsecureDownloadAll()
		c.check((err == nil) == (s["exp"] == "ok"), "zk.transfer", "download without hashes: %v, expected %v (server %v)", err, s["exp"], r.s.mode)
		for i, d := range arr(s["disk"]) {
			c.check(r.state(i+1) == str(d), "zk.transfer", "file %d is %s after the download, expected %v", i+1, r.state(i+1), d)
		}
	case "hashes":
		h, err := in.z.InsecureCalcHashes()
		c.check((err == nil) == (s["exp"] == "ok"), "zk.hashes", "hashes: %v, expected %v", err, s["exp"])
		if err == nil {
			got := []string{h.ProvingKey, h.VerificationKey, h.WitnessCalcWASM}
			g := r.hashes(nil)
			want := []string{g.ProvingKey, g.VerificationKey, g.WitnessCalcWASM}
			for i, d := range arr(s["disk"]) {
				c.check((got[i] == want[i]) == (d == "good"), "zk.hashes", "hash of file %d", i+1)
			}
		}
	case "crash":
		r.crash(c, f, str(s["how"]))
	case "race":
		r.race(c, num(s["k"]), num(s["fails"]), str(s["m"]), s["shared"].(bool), num(s["proc"]))
	default:
		internal("unknown step %v", s)
	}
	// a transfer that failed leaves no file in place of the real one
	if e := str(s["exp"]); e != "" && f != 0 && s["was"] == "absent" && e == "err" && strings.Contains("404 500 close cut cutchunk redirect", r.s.mode[f]) {
		c.check(r.state(f) == "absent", "zk.partial", "a failed download left a file (server %s)", r.s.mode[f])
		c.bump("failed_transfer")
	}
}

func (r *zkReplay) child(args ...string) *exec.Cmd {
	hb, err := json.Marshal(r.hashes(nil))
	must(err)
	return exec.Command(os.Args[0], append([]string{"zkchild", r.s.url + "/x", r.dir, string(r.format), string(hb), fmt.Sprint(r.n), hex.EncodeToString(r.s.good[3][:5])}, args...)...)
}

func (r *zkReplay) crash(c *Ctx, f int, how string) {
	was := r.s.mode[f]
	r.serve(f, "good")
	cmd := r.child(fmt.Sprint(f), how)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if how == "stall" {
		r.s.mu.Lock()
		r.s.stalled, r.s.release = make(chan bool, 1), make(chan bool)
		st, rel := r.s.stalled, r.s.release
		r.s.mode[f] = "stall"
		r.s.mu.Unlock()
		must(cmd.Start())
		select {
		case <-st:
		case <-time.After(60 * time.Second):
			internal("the child does not ask the server")
		}
		for i := 0; i < 200; i++ { // until some bytes arrived
			if fi, err := os.Stat(r.path(f) + ".tmp"); err == nil && fi.Size() > 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		must(cmd.Process.Kill())
		cmd.Wait() //nolint:errcheck
		close(rel)
	} else {
		cmd.Run() //nolint:errcheck
		ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ok && !ws.Signaled() { // it does not use this call
			c.bump("crash_not_reached")
			c.check(strings.Contains(out.String(), "CHILD ok"), "zk.process", "another process: %s %s", out.String(), errb.String())
			r.forget(f)
		}
	}
	r.serve(f, was)
	c.check(r.state(f) != "bad", "zk.partial", "a partial file is left in place of the real one (process ended at %s)", how)
	r.forget(f)
	c.bump("crash_" + how)
}

func (r *zkReplay) race(c *Ctx, k, fails int, mode string, shared bool, procs int) {
	for f := 1; f <= 3; f++ {
		r.forget(f)
	}
	r.s.mu.Lock()
	was := r.s.mode
	r.s.mode = [4]string{"", "good", "good", "good"}
	r.s.slow, r.s.fails, r.s.failing = true, fails, mode
	if mode == "redirect" && fails > 0 {
		r.s.failing = "404" // one request, one failure
	}
	r.s.mu.Unlock()
	var wg sync.WaitGroup
	res := make([]string, k+procs)
	one := r.instance(true, map[int]bool{})
	for i := 0; i < k; i++ {
		z := one
		if !shared {
			z = r.instance(i%2 == 0, map[int]bool{})
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for f := 1; f <= 3; f++ {
				x, err := zkGenuine(z, 1+(f+i)%3, r.n, r.s.good[3])
				if err != nil {
					res[i] = "err: " + err.Error()
					return
				}
				if x != "ok" {
					res[i] = x
					return
				}
			}
			res[i] = "ok"
		}(i)
	}
	for i := k; i < k+procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out, _ := r.child("0", "").CombinedOutput()
			res[i] = "err: the process said " + string(out)
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "CHILD ") {
					res[i] = l[6:]
				}
			}
		}(i)
	}
	wg.Wait()
	errs := 0
	for _, x := range res {
		if strings.HasPrefix(x, "err: ") {
			errs++
			continue
		}
		c.check(x == "ok", "zk.genuine", "of %d concurrent users one was handed out %s", k+procs, x)
	}
	c.check(errs <= fails, "zk.concurrent", "of %d concurrent users %d failed, with %d failed transfers: %v", k+procs, errs, fails, res)
	for f := 1; f <= 3; f++ {
		st := r.state(f)
		c.check(st == "good" || errs == k+procs && st == "absent", "zk.concurrent", "file %d is %s afterwards (%v)", f, st, res)
		r.forget(f)
	}
	r.s.mu.Lock()
	r.s.mode, r.s.slow, r.s.fails = was, false, 0
	r.s.mu.Unlock()
	c.bump(fmt.Sprintf("race_failing_%v", fails > 0))
}

func zkChild(a []string) {
	var h zkutils.ZkFilesHashes
	must(json.Unmarshal([]byte(a[3]), &h))
	var n, f int
	fmt.Sscan(a[4], &n)
	unit, err := hex.DecodeString(a[5])
	must(err)
	fmt.Sscan(a[6], &f)
	switch a[7] {
	case "rename":
		killAt([]uint32{82, 264, 316})
	case "sync":
		killAt([]uint32{74, 75})
	}
	z := zkutils.NewZkFiles(a[0], a[1], zkutils.ProvingKeyFormat(a[2]), h, true)
	for i := 1; i <= 3; i++ {
		if f != 0 && f != i {
			continue
		}
		res, err := zkGenuine(z, i, n, bytes.Repeat(unit, 20000))
		if err != nil {
			fmt.Println("CHILD err:", err)
			return
		}
		if res != "ok" {
			fmt.Println("CHILD", res)
			return
		}
	}
	fmt.Println("CHILD ok")
}
