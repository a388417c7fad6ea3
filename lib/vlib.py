"""Check-side machinery: runs TLC models, drivers on the real code, and TLC trace validation."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")   # overridden only while developing the checks
EVID = os.environ.get("VERIF_EVID", os.path.join(ROOT, "evidence"))
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(Exception):
    pass


def find_cp():
    """Class path of TLC with the community modules (taken from the tlc wrapper)."""
    txt = open(shutil.which("tlc")).read()
    jars = re.findall(r"/[\w./-]+\.jar", txt)
    seen = [j for j in dict.fromkeys(jars) if os.path.exists(j)]
    if not seen:
        seen = [JARS] + glob.glob("/opt/veriftools/tla/*.jar")
    return ":".join(seen)


CP = None


def java_tlc(args, cwd, env=None, timeout=800, heap="2g"):
    global CP
    if CP is None:
        CP = find_cp()
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="meta", dir=cwd)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss32m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE"] + args
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def stats(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def run_model(work, module, cfg, timeout=800, workers=4, heap="4g", env=None):
    """Model-check spec/<module>.tla with spec/<cfg>.cfg.  Must succeed: the model does not depend on /repo."""
    t = time.time()
    rc, out = java_tlc(["-workers", str(workers), "-deadlock", "-config", cfg + ".cfg", module + ".tla"], work, env=env, timeout=timeout, heap=heap)
    if rc != 0:
        raise MachineryError(f"TLC model {module}/{cfg} failed rc={rc}:\n{out[-1500:]}")
    g, d = stats(out)
    return dict(module=module, cfg=cfg, generated=g, distinct=d, wall=round(time.time() - t, 1), out=out)


def run_gen(work, module, cfg, outfile, env=None, timeout=600, heap="4g"):
    """Let TLC write cases / behaviours of the specification as ndjson (module serialises to $GEN_FILE)."""
    e = dict(env or {})
    e["GEN_FILE"] = outfile
    rc, out = java_tlc(["-workers", "1", "-deadlock", "-config", cfg + ".cfg", module + ".tla"], work, env=e, timeout=timeout, heap=heap)
    if rc != 0 or not os.path.exists(outfile):
        raise MachineryError(f"TLC generator {module}/{cfg} failed rc={rc}:\n{out[-1500:]}")
    g, d = stats(out)
    return dict(module=module, cfg=cfg, generated=g, distinct=d)


def run_driver(script, args, timeout):
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + ":" + os.path.join(ROOT, "lib"), MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.Popen([PY, os.path.join(ROOT, "drivers", script)] + args, cwd=args[args.index("--work") + 1] if "--work" in args else "/tmp",
                         env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return 124, out


def validate(work, module, trace, shards=8, timeout=800, heap="2g"):
    """Validate an ndjson trace against spec/<module>.tla.  Cases (lines) are dealt to shards; a line is one
    self-contained behaviour.  Returns (n_lines, bads, states) with bads = [{case, kind, bad:[clauses]}]."""
    lines = [l for l in open(trace) if l.strip()]
    if not lines:
        return 0, [], (0, 0)
    shards = max(1, min(shards, (len(lines) + 39) // 40))
    files = []
    for s in range(shards):
        fn = f"{trace}.{s}"
        part = lines[s::shards]
        with open(fn, "w") as f:
            f.writelines(part)
        files.append((fn, len(part)))
    bads, g, d = [], 0, 0

    def one(a):
        fn, n = a
        return fn, n, java_tlc(["-workers", "1", "-deadlock", "-config", "Trace.cfg", module + ".tla"], work,
                               env={"TRACE_FILE": fn}, timeout=timeout, heap=heap)
    with cf.ThreadPoolExecutor(shards) as ex:
        for fn, n, (rc, out) in ex.map(one, files):
            for m in re.finditer(r'^"BAD (.*)"$', out, re.M):
                if True:
                    bads.append(json.loads(json.loads('"' + m.group(1) + '"')))
            gg, dd = stats(out)
            g += gg
            d += dd
            if '"DONE ' not in out:
                if rc == 124:
                    raise MachineryError(f"trace validation {module} timed out")
                if re.search(r"Parsing or semantic analysis failed|Could not find module|was not found|config file|Unknown operator|OutOfMemory", out):
                    raise MachineryError(f"trace validation {module} could not run:\n{out[-3000:]}")
                # An evaluation error: the recorded observation is outside the vocabulary of the specification.
                k = re.findall(r"^/?\\? ?i = (\d+)", out, re.M)
                idx = int(k[-1]) - 1 if k else 0
                part = open(fn).read().splitlines()
                rec = json.loads(part[min(idx, len(part) - 1)])
                sys.stderr.write(out[-3000:])
                bads.append(dict(case=rec.get("case", idx), kind=rec.get("kind", "?"), bad=["observation-outside-specification"], tlc=out[-1500:]))
            os.unlink(fn)
    return len(lines), bads, (g, d)


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.gen = self.dist = self.cases = 0
        self.models, self.samples, self.bads, self.kinds = [], [], [], {}
        self.assumptions = []
        self.extra = {}

    def model(self, module, cfg, **kw):
        m = run_model(self.work, module, cfg, **kw)
        m.pop("out")
        self.models.append(m)
        self.gen += m["generated"]
        self.dist += m["distinct"]
        return m

    def generate(self, module, cfg, name, **kw):
        fn = os.path.join(self.work, name + ".gen.ndjson")
        m = run_gen(self.work, module, cfg, fn, **kw)
        self.models.append(dict(m, generator=True, cases=sum(1 for _ in open(fn))))
        self.gen += m["generated"]
        self.dist += m["distinct"]
        return fn

    def drive(self, script, extra=(), timeout=700, name="trace"):
        fn = os.path.join(self.work, name + ".ndjson")
        rc, out = run_driver(script, ["--out", fn, "--seed", str(self.seed), "--tier", self.tier, "--work", self.work] + list(extra), timeout)
        if rc != 0:
            frames = re.findall(r'File "([^"]+)"', out)
            # A driver completes on code that behaves; when it breaks while handling what the code handed it, that is an
            # observation outside the specification.  Trouble of the sandbox itself is not.
            sandbox = re.search(r"^(MemoryError|OSError: \[Errno (12|24|28)\]|ModuleNotFoundError: No module named '(?!leap_ec))", out, re.M) or rc < 0
            in_repo = any(f.startswith(REPO + "/") for f in frames) or not sandbox
            if in_repo and rc != 124:
                self.bads.append(dict(case=-1, kind="driver", bad=["code-under-test-raised-outside-any-case"], out=out[-3000:]))
                sys.stderr.write(out[-3000:])
            elif rc == 124:
                self.bads.append(dict(case=-1, kind="driver", bad=["code-under-test-hangs"], out=out[-3000:]))
            else:
                raise MachineryError(f"driver {script} rc={rc}:\n{out[-1500:]}")
            open(fn, "a").close()
        return fn

    def validate(self, module, trace, **kw):
        n, bads, (g, d) = validate(self.work, module, trace, **kw)
        self.cases += n
        self.gen += g
        self.dist += d
        byid = {}
        with open(trace) as f:
            for i, l in enumerate(f):
                if not l.strip():
                    continue
                r = json.loads(l)
                byid[r["case"]] = r
                self.kinds[r["kind"]] = self.kinds.get(r["kind"], 0) + 1
                if self.kinds[r["kind"]] == 1 and len(l) < 1500 and len(self.samples) < 8:
                    self.samples.append(r)
        for b in bads:
            b["record"] = byid.get(b["case"])
            b["spec"] = module
        self.bads += bads
        return n, bads

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == self.pid and k["status"] == "known"]
        unknown, hit = [], {}
        for b in self.bads:
            k = next((k for k in known if k["match"]["kind"] == b["kind"] and set(b["bad"]) <= set(k["match"]["clauses"])
                      and all((b.get("record") or {}).get(f) == v for f, v in k["match"].get("where", {}).items())), None)
            if k:
                hit[k["id"]] = k
            else:
                unknown.append(b)
        for k in hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.dist, transitions=self.gen, traces_validated_against_impl=self.cases,
                                samples=self.samples or [dict(note="no case recorded")], models=self.models, cases_by_kind=self.kinds, **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(unknown))
        os.makedirs(os.path.join(EVID), exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        if unknown:
            rp = os.path.join(EVID, f"{self.pid}.replay.json")
            json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, violations=unknown[:40], total=len(unknown)), open(rp, "w"), indent=1)
            for b in unknown[:5]:
                print(f"  case {b['case']} kind {b['kind']}: violated {b['bad']}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} models={len(self.models)} states={self.dist} cases={self.cases} wall={ev['wall_s']}s")
        return 0
