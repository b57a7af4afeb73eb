#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> quick|thorough
   or replays a saved violation:     check.py --replay FILE

Pipeline (see DESIGN.md): TLC checks the TLA+ specification exhaustively at
small constants; TLC then prints behaviours of the same specification, with the
observations the specification demands; the Go driver (harness/) steps the real
code of /repo through them and compares.  Where the code is the one to choose
the schedule (concurrency), the driver records a trace and TLC decides whether
the specification allows it.  Only the behaviour of the real code gives a
verdict: a failing tool exits with 3."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
CORES = 8


class ToolError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE, check=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode().split("=", 1)
            if k in ("PATH", "HOME") or k.startswith("GO") or k.startswith("CGO"):
                e[k] = v
    e["KEYTAB"] = os.path.join(HERE, "data", "keys.json")
    return e


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.env = goenv()
        self.lock = threading.Lock()
        self.states = self.distinct = 0
        self.mc_runs, self.samples = [], []
        self.behaviours = self.steps = self.checks = 0
        self.ops, self.extra, self.fails = {}, {}, []
        self.traces_checked = 0
        self.cmds = []
        self.seq = 0
        self.vh = os.path.join(self.tmp, "vh")
        self.building = {}

    def name(self, s):
        with self.lock:
            self.seq += 1
            return os.path.join(self.tmp, "%s%d" % (s, self.seq))

    def build(self, kind=""):
        """kind: "" | "-race" | "-clock" (the clock of the process can be set)."""
        out = self.vh + kind
        with self.lock:
            bl = self.building.setdefault(kind, threading.Lock())
        with bl:
            if os.path.exists(out):
                return out
            cmd = ["go", "build"]
            if kind == "-race":
                cmd += ["-race"]
            if kind == "-clock":
                # package time with a hook for Now; the repository's code is compiled as it is
                root = subprocess.run(["go", "env", "GOROOT"], env=self.env, stdout=subprocess.PIPE).stdout.decode().strip()
                src = os.path.join(root, "src", "time", "time.go")
                t = open(src).read()
                if t.count("func Now() Time {") != 1:
                    raise ToolError("package time is not as expected")
                t = t.replace("func Now() Time {", "// VerifNow replaces the clock.\nvar VerifNow func() Time\n\nfunc Now() Time {\n"
                              "\tif VerifNow != nil {\n\t\treturn VerifNow()\n\t}\n\treturn verifNow()\n}\n\nfunc verifNow() Time {")
                open(os.path.join(self.tmp, "time.go"), "w").write(t)
                ov = os.path.join(self.tmp, "overlay.json")
                json.dump({"Replace": {src: os.path.join(self.tmp, "time.go")}}, open(ov, "w"))
                cmd += ["-tags", "verifclock", "-overlay", ov]
            cmd += ["-o", out, "."]
            r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=self.env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=800)
            if r.returncode != 0:
                raise ToolError("harness does not build against /repo:\n" + r.stdout.decode()[-3000:])
            return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, spec, cfg, params, args, env=None, timeout=600, mem="3g"):
        d = self.name("tlc")
        os.mkdir(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "m.cfg"), "w") as f:
            f.write(cfg)
        with open(os.path.join(d, "params.json"), "w") as f:
            json.dump(params, f)
        e = dict(self.env, PARAMS=os.path.join(d, "params.json"))
        e.update(env or {})
        cmd = ["tlc"]
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:ParallelGCThreads=2 %s" % (mem, (env or {}).get("JTO", ""))
        cmd += ["-metadir", os.path.join(d, "md"), "-config", "m.cfg"] + args + [spec + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % spec)
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        return r.returncode, r.stdout.decode(errors="replace"), d

    def mc(self, j):
        """Exhaustive check of the specification's own properties."""
        cfg = "SPECIFICATION Fair\nCHECK_DEADLOCK FALSE\n" if j.get("fair") else "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        if j.get("inv"):
            cfg += "INVARIANTS " + " ".join(j["inv"]) + "\n"
        if j.get("props"):
            cfg += "PROPERTIES " + " ".join(j["props"]) + "\n"
        if j.get("constraint"):
            cfg += "CONSTRAINT " + j["constraint"] + "\n"
        if j.get("view"):
            cfg += "VIEW " + j["view"] + "\n"
        rc, out, _ = self.tlc(j["spec"], cfg, j["params"], ["-workers", str(j.get("workers", 2))], j.get("env"),
                              j.get("timeout", 700), j.get("mem", "4g"))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if j.get("expect"):  # a protection left out: the invariants must notice
            if "Invariant %s is violated" % j["expect"] not in out:
                raise ToolError("TLC: %s was expected to break %s:\n%s" % (j["spec"], j["expect"], out[-3000:]))
            with self.lock:
                self.states += int(m[-1][1])
                self.distinct += int(m[-1][0])
                self.mc_runs.append({"spec": j["spec"], "params": brief(j["params"]), "breaks_as_expected": j["expect"]})
            return
        if rc != 0 or not m or "No error has been found" not in out:
            raise ToolError("TLC: %s (rc %d):\n%s" % (j["spec"], rc, out[-4000:]))
        with self.lock:
            self.states += int(m[-1][1])
            self.distinct += int(m[-1][0])
            self.mc_runs.append({"spec": j["spec"], "params": brief(j["params"]), "invariants": j.get("inv", []) + j.get("props", []),
                                 "distinct_states": int(m[-1][1]), "transitions": int(m[-1][0])})

    def behaviours_from(self, j, seed):
        """Behaviours of the specification, one JSON array per line."""
        cfg = "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
        if j.get("exhaustive"):
            args = ["-workers", "2"]
        else:
            args = ["-simulate", "num=%d" % j["num"], "-depth", str(j.get("depth", 400)), "-seed", str(seed), "-workers", "1"]
        rc, out, d = self.tlc(j["spec"], cfg, j["params"], args, j.get("env"), j.get("timeout", 700), j.get("mem", "3g"))
        if "Error:" in out or "Exception" in out:
            i = out.find("Error:")
            raise ToolError("TLC: %s:\n%s" % (j["spec"], out[max(0, i - 300):i + 3000]))
        f = os.path.join(d, "beh.ndjson")
        n = 0
        with open(f, "w") as w:
            for l in out.split("\n"):
                if l.startswith('"['):
                    w.write(json.loads(l) + "\n")
                    n += 1
        if n == 0:
            raise ToolError("TLC printed no behaviour of %s:\n%s" % (j["spec"], out[-3000:]))
        if j.get("exhaustive"):
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            with self.lock:
                self.states += int(m[-1][1])
                self.distinct += int(m[-1][0])
        return f, n

    # ---------------------------------------------------------------- driver
    def drive(self, args, env=None, timeout=800, src=None, kind=""):
        e = dict(self.env)
        e.update(env or {})
        e["TMPDIR"] = self.tmp
        cmd = [self.build(kind)] + args
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            raise ToolError("driver timed out: " + " ".join(args))
        out, err = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        res = None
        for l in out.split("\n"):
            if l.startswith("RESULT "):
                res = json.loads(l[7:])
        fatal = re.search(r"^(fatal error: .*|WARNING: DATA RACE)$", err, re.M)
        if res is None and fatal and "out of memory" not in err and "/repo/" in err and "HARNESS-ERROR" not in err:
            # the Go runtime ended the process inside the code under test
            res = {"behaviours": 0, "steps": 0, "checks": 0, "ops": {}, "extra": {},
                   "fails": [{"sig": "runtime.fatal", "behaviour": -1, "step": -1, "op": "", "detail": err[:3000]}]}
        if res is None:
            raise ToolError("driver failed (rc %d): %s\n%s" % (r.returncode, " ".join(args), err[-3000:]))
        with self.lock:
            self.behaviours += res["behaviours"]
            self.steps += res["steps"]
            self.checks += res["checks"]
            for k, v in res["ops"].items():
                self.ops[k] = self.ops.get(k, 0) + v
            for k, v in (res.get("extra") or {}).items():
                self.extra[k] = self.extra.get(k, 0) + v
            for f in res.get("fails") or []:
                f["cmd"], f["env"], f["src"], f["kind"] = args, {k: v for k, v in (env or {}).items()}, src, kind
                self.fails.append(f)
        return res, out

    def sim(self, j, shard):
        f, n = self.behaviours_from(j, self.seed * 1000 + shard * 17 + 5)
        fl = j["flavours"][shard % len(j["flavours"])]
        args = ["replay", "-module", j["module"], "-in", f, "-flavour", fl, "-seed", str(self.seed + shard)]
        if j.get("only"):
            args += ["-only", ",".join(j["only"])]
        self.drive(args, j.get("denv"), src=f, timeout=j.get("timeout", 800), kind="-clock" if j.get("clock") else "")
        with self.lock:
            if len(self.samples) < 3:
                with open(f) as h:
                    s = json.loads(h.readline())
                t = json.dumps(s)
                self.samples.append({"spec": j["spec"], "flavour": fl,
                                     "behaviour": s if len(t) < 3000 else [x.get("op") for x in s],
                                     "first_steps": None if len(t) < 3000 else json.dumps(s[:2])[:1500]})

    def decide(self, spec, p, params, timeout):
        """TLC decides the histories in a file, one per line; the index of the first
        that the specification does not allow, or None."""
        n = sum(1 for l in open(p) if l.strip())
        cfg = "INIT TInit\nNEXT TNext\nINVARIANT NotAccepted\nCHECK_DEADLOCK FALSE\n"
        rc, tout, _ = self.tlc(spec, cfg, params, ["-workers", "1", "-nowarning"],
                               {"TRACE": p, "JTO": "-Dtlc2.tool.queue.IStateQueue=StateDeque"}, timeout)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", tout)
        got = max([int(x) for x in re.findall(r'<<"accepted", (\d+)>>', tout)] + [0])
        with self.lock:
            if m:
                self.distinct += int(m[-1][0])
                self.states += int(m[-1][1])
            self.traces_checked += got
        if "Invariant NotAccepted is violated" in tout and got == n:
            return None
        if "No error has been found" in tout and got < n:
            return got
        raise ToolError("TLC on a trace: %s" % tout[-3000:])

    def trace(self, j, shard):
        """The driver records traces of the real code; TLC decides them."""
        d = self.name("trace")
        os.mkdir(d)
        kind = "-race" if j.get("race") else "-clock" if j.get("clock") else ""
        args = [j["cmd"], "-out", d, "-seed", str(self.seed * 1000 + shard), "-n", str(j["num"])] + j.get("args", [])
        res, out = self.drive(args, j.get("denv"), timeout=j.get("timeout", 800), kind=kind)
        files = sorted(x for x in os.listdir(d) if x.endswith(".ndjson"))
        for x in files:
            p = os.path.join(d, x)
            bad = self.decide(j["spec"], p, j.get("params", {}), j.get("ttimeout", 300))
            if bad is not None:
                with open(p) as h:
                    line = h.read().split("\n")[bad]
                with open(p + ".bad", "w") as h:
                    h.write(line)
                with self.lock:
                    self.fails.append({"sig": j["sig"], "behaviour": -1, "step": 0, "op": j["cmd"], "spec": j["spec"],
                                       "detail": "the specification %s does not allow the recorded history\n%s" % (j["spec"], line),
                                       "cmd": args, "env": j.get("denv") or {}, "src": p + ".bad", "kind": kind})
        if files:
            with self.lock:
                if len(self.samples) < 3:
                    with open(os.path.join(d, files[0])) as h:
                        self.samples.append({"spec": j["spec"], "trace": h.read()[:1500]})


def brief(p):
    return {k: (v if len(json.dumps(v)) < 200 else "%d items" % len(v)) for k, v in p.items()}


def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    return res


def save_replay(run, f, n):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-seed%d-%d.json" % (run.prop, run.tier, run.seed, n))
    beh = None
    if f.get("src") and os.path.exists(f["src"]):
        lines = open(f["src"]).read().split("\n")
        if f["cmd"][0] == "replay" and 0 <= f["behaviour"] < len(lines):
            beh = [lines[f["behaviour"]]]
        else:
            beh = lines
    with open(path, "w") as w:
        json.dump({"property": run.prop, "signature": f["sig"], "step": f["step"], "op": f["op"], "detail": f["detail"],
                   "driver": f["cmd"], "build": f.get("kind", ""), "spec": f.get("spec"), "env": f["env"], "behaviour_index": f["behaviour"], "behaviour": beh}, w, indent=1)
    return path


def do_replay(path):
    r = json.load(open(path))
    run = Run(r["property"], "quick", 1)
    try:
        if r.get("spec"):  # a recorded history: decide it again
            f = os.path.join(run.tmp, "h.ndjson")
            open(f, "w").write("\n".join(r["behaviour"]) + "\n")
            bad = run.decide(r["spec"], f, {}, 300)
            print("the specification %s %s the history" % (r["spec"], "allows" if bad is None else "does not allow"))
            return 0 if bad is None else 1
        run.build(r.get("build", ""))
        args = list(r["driver"])
        if r["behaviour"] and args[0] == "replay":
            f = os.path.join(run.tmp, "b.ndjson")
            # keep the index: some concretizations depend on it
            open(f, "w").write("\n".join(["[]"] * r["behaviour_index"] + r["behaviour"]) + "\n")
            args[args.index("-in") + 1] = f
        elif "-out" in args:
            args[args.index("-out") + 1] = run.tmp
        res, _ = run.drive(args, r["env"], kind=r.get("build", ""))
        for f in res["fails"] or []:
            print("%s step %d %s: %s" % (f["sig"], f["step"], f["op"], f["detail"][:2000]))
        return 1 if res["fails"] else 0
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2]))
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, HERE)
    import plan
    p = plan.plan(prop, tier)
    t0 = time.time()
    run = Run(prop, tier, seed)
    rc = 3
    try:
        jobs = []
        with cf.ThreadPoolExecutor(CORES) as ex:
            kinds = {"-race" if j.get("race") else "-clock" if j.get("clock") else "" for j in p.get("sim", []) + p.get("trace", [])}
            builds = [ex.submit(run.build, k) for k in sorted(kinds)]
            for j in p.get("mc", []):
                jobs.append(ex.submit(run.mc, j))
            for x in builds:
                x.result()
            for j in p.get("sim", []):
                for s in range(j.get("shards", 1)):
                    jobs.append(ex.submit(run.sim, j, s))
            for j in p.get("trace", []):
                for s in range(j.get("shards", 1)):
                    jobs.append(ex.submit(run.trace, j, s))
            errs = []
            for b in jobs:
                try:
                    b.result()
                except ToolError as e:
                    errs.append(e)
                    print("TOOL-ERROR: %s" % e, file=sys.stderr)
        known = known_findings(prop)
        seen, n, viol = set(), 0, []
        for f in run.fails:
            k = next((x for x in known if f["sig"] == x[0] and x[1].search(f["detail"])), None)
            if k:
                continue
            viol.append(f)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        bysig = {}
        for f in viol:
            bysig.setdefault(f["sig"], []).append(f)
        for sig, fs in sorted(bysig.items()):
            path = save_replay(run, fs[0], n)
            n += 1
            print("%s: %d time(s), first at step %d (%s): %s" % (sig, len(fs), fs[0]["step"], fs[0]["op"], fs[0]["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        wall = time.time() - t0
        need = p.get("need", [])
        missing = [k for k in need if not run.ops.get(k) and not run.extra.get(k)]
        if viol:
            rc = 1
        elif errs:
            rc = 3
        elif missing:
            print("TOOL-ERROR: never exercised: %s" % missing, file=sys.stderr)
            rc = 3
        else:
            rc = 0
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": run.states, "transitions": run.distinct,
                           "traces_validated_against_impl": run.behaviours + run.traces_checked,
                           "replayed_behaviours": run.behaviours, "replayed_steps": run.steps,
                           "recorded_traces_decided_by_tlc": run.traces_checked,
                           "comparisons": run.checks, "steps_by_operation": run.ops, "events": run.extra,
                           "model_checking_runs": run.mc_runs, "samples": run.samples},
              "assumptions": p.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as w:
            json.dump(ev, w, indent=1)
        print("%s %s seed %d: %d behaviours, %d steps, %d comparisons, %d traces decided, %d states, %.1f s, %d violations" %
              (prop, tier, seed, run.behaviours, run.steps, run.checks, run.traces_checked, run.states, wall, len(viol)))
    except ToolError as e:
        print("TOOL-ERROR: %s" % e, file=sys.stderr)
        rc = 3
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
