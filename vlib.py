"""Runs the pieces of a check: the harness built from /repo's working tree, and TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, "spec")
TARGET = os.path.join(V, "target")


class Broken(Exception):
    """the check itself could not run: exit 2, never a violation"""


def sh_build(bins):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
               RUSTFLAGS="--cfg zok_verif", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    env["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + env.get("PATH", "")
    fp = os.path.join(TARGET, "release", ".fingerprint")
    if os.path.isdir(fp):   # cargo goes by modification times: have it look at /repo again
        for d in os.listdir(fp):
            if d.startswith("zero-over-k-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    cmd = ["cargo", "build", "--release", "--offline", "-q"]
    for b in bins:
        cmd += ["--bin", "z_" + b]
    p = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=env, text=True, capture_output=True, timeout=800)
    if p.returncode != 0:
        raise Broken("harness does not build:\n" + p.stderr[-3000:])


class Crash(Exception):
    """the code under test took the process down, or never came back: no outcome any property allows"""
    def __init__(self, why, job):
        super().__init__(why)
        self.why, self.job = why, job


class Check:
    def __init__(self, pid, seed=None, tier=None):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.states = self.trans = self.traces = 0
        self.samples, self.runs, self.bad, self.known = [], [], [], []
        self.assume = []
        self.notes = {}
        self.built = set()
        self.tmp = tempfile.mkdtemp(prefix="zokv-%s-" % pid)
        self.findings = [f for f in json.load(open(os.path.join(V, "known-findings.json")))["findings"]
                         if f["property"] == pid]

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    # ---- implementation
    def build(self, *bins):
        need = [b for b in bins if b not in self.built]
        if need:
            sh_build(need)
            self.built.update(need)

    def exec_(self, bin_, jobs, timeout):
        try:
            p = subprocess.run([os.path.join(TARGET, "release", "z_" + bin_)], input="\n".join(json.dumps(j) for j in jobs), text=True,
                               capture_output=True, timeout=timeout)
            return p, p.stderr
        except subprocess.TimeoutExpired as e:
            return None, (e.stderr or b"").decode(errors="replace") if not isinstance(e.stderr, str) else e.stderr

    def run(self, bin_, jobs, timeout=None):
        self.build(bin_)
        if not jobs:
            return []
        if timeout is None: timeout = 10800 if self.thorough() else 420
        p, err = self.exec_(bin_, jobs, timeout)
        if p is None or p.returncode in (-4, -6, -7, -8, -11):
            # which of the jobs under way was it?
            ids = lambda tag: {int(l.split()[1]) for l in err.splitlines() if re.fullmatch(tag + r" \d+", l)}
            for i in sorted(ids("START") - ids("END")):
                q, e = self.exec_(bin_, [jobs[i]], 90)
                if q is None: raise Crash("no answer within 90 s", jobs[i])
                if q.returncode < 0: raise Crash("process ended by signal %d" % -q.returncode, jobs[i])
            raise Broken(f"{bin_}: " + ("timeout" if p is None else f"killed by signal {-p.returncode}") + "\n" + err[-2000:])
        m = re.search(r"^HARNESS ERROR job #(\d+) (.*)", err, re.M | re.S)
        if p.returncode == 2 and m and "harness:" not in m[2]:
            raise Crash("panic outside every guarded operation: " + m[2][:300], jobs[int(m[1])])
        if p.returncode != 0:
            raise Broken(f"{bin_}: exit {p.returncode}\n" + err[-2000:])
        out = [json.loads(l) for l in p.stdout.splitlines() if l.strip()]
        if len(out) != len(jobs):
            raise Broken(f"{bin_}: {len(out)} results for {len(jobs)} jobs")
        return out

    # ---- specification
    def tlc(self, module, cfg, env=None, workers=8, timeout=700, extra=(), expect="ok", name=None):
        """cfg: text of the configuration.  Returns stdout; raises Broken unless TLC finished cleanly."""
        cf = os.path.join(self.tmp, "%s_%d.cfg" % (module, len(self.runs)))
        open(cf, "w").write(cfg)
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = "-Xss128m -Xmx10g"
        e.update(env or {})
        t = time.time()
        for attempt in (1, 2):
            md = tempfile.mkdtemp(dir=self.tmp)
            try:
                p = subprocess.run(["tlc", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cf,
                                    *extra, module + ".tla"], cwd=SPEC, env=e, text=True, capture_output=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken(f"TLC {module}: timeout")
            out = p.stdout
            shutil.rmtree(md, ignore_errors=True)
            # a Java machine that ran out of something says nothing about the specification: once more, with less at a time
            if "Model checking completed. No error has been found." in out or "violated" in out or "Evaluating" in out or "Attempted to" in out: break
            if attempt == 1:
                os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
                open(os.path.join(V, "evidence", "tlc-trouble.txt"), "a").write("%s %s\n%s\n%s\n" % (self.pid, module, "\n".join(l for l in out.splitlines() if not l.startswith('"'))[-6000:], p.stderr[-3000:]))
                workers = max(1, workers // 4)
        if "Model checking completed. No error has been found." not in out:
            at = out.find("Error:")
            raise Broken(f"TLC {module}: " + (out[at:at + 1200] + "\n...\n" if at >= 0 else "") + out[-2000:] + p.stderr[-500:])
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if not m:
            raise Broken(f"TLC {module}: no state count\n" + out[-1500:])
        g, d = int(m[-1][0]), int(m[-1][1])
        self.states += d
        self.trans += g
        self.runs.append({"spec": name or module, "states": d, "transitions": g, "wall_s": round(time.time() - t, 2)})
        return out

    def design(self, module, cfg, **kw):
        """exhaustive check of a design model"""
        return self.tlc(module, cfg, **kw)

    def emitted(self, out, tag):
        """values printed by the specification as  "TAG <json>"  """
        r = []
        for line in out.splitlines():
            if line.startswith('"' + tag + " "):
                r.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return r

    def trace(self, module, lines, cfg, jobs=None, per_line=None, **kw):
        """validate recorded behaviours; lines: dicts with an "id".  jobs: id -> what to replay"""
        if not lines:
            raise Broken(f"{module}: nothing to validate")
        path = os.path.join(self.tmp, "%s_%d.ndjson" % (module, len(self.runs)))
        with open(path, "w") as f:
            for x in lines:
                f.write(json.dumps(x, ensure_ascii=True) + "\n")
        before = self.states
        try:
            out = self.tlc(module, cfg, env={"TRACE": path}, **kw)
        except Broken as e:
            # the specification is total on the behaviours it knows; one it cannot read is not one of them
            if "Evaluating" not in str(e) and "Attempted to" not in str(e): raise
            self.report({"id": "?", "why": "recorded behaviour outside the specification: " + str(e)[-1200:]}, None, None, module)
            return [None]
        if self.states - before < len(lines):
            raise Broken(f"{module}: only {self.states - before} states for {len(lines)} lines")
        self.traces += len(lines)
        bad = self.emitted(out, "BAD")
        byid = {str(x["id"]): x for x in lines}
        for b in bad:
            k = str(b["id"])
            self.report(b, (jobs or {}).get(k, (jobs or {}).get(b["id"])), byid.get(k), module)
        return bad

    def report(self, why, job, line, module):
        fid = (line or {}).get("known", "")
        for f in self.findings:
            if fid and f["id"] == fid and f["why"] == why.get("why"):
                self.known.append(f)
                return
        self.bad.append({"why": why, "job": job, "trace": line, "spec": module})

    def note(self, k, v):
        self.notes[k] = v

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    # ---- end
    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["(none)"], "tlc_runs": self.runs,
                "exhaustive": False, "detail": self.notes,
            },
            "assumptions": self.assume,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad),
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)
        seen = set()
        for f in self.known:
            if f["id"] not in seen:
                seen.add(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.bad:
            rp = os.path.join(V, "evidence", "replay")
            os.makedirs(rp, exist_ok=True)
            for k, b in enumerate(self.bad[:5]):
                f = os.path.join(rp, "%s-%d.json" % (self.pid, k))
                json.dump(b, open(f, "w"))
                print("VIOLATION property=%s replay=%s" % (self.pid, f))
                print("  ", json.dumps(b["why"])[:400])
            if len(self.bad) > 5:
                print("   ... and %d more" % (len(self.bad) - 5))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0


def main(table):
    pid = sys.argv[1]
    c = Check(pid)
    try:
        try:
            table[pid](c)
        except Crash as e:
            c.report({"id": e.job.get("id"), "why": e.why}, e.job, None, "harness")
        sys.exit(c.finish())
    except Exception as e:
        # what was found before stands
        if c.bad: sys.exit(c.finish())
        import traceback
        print("CHECK ERROR %s: %s" % (pid, e))
        if not isinstance(e, (Broken, subprocess.TimeoutExpired)): traceback.print_exc()
        sys.exit(2)
