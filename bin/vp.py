"""Common machinery: build the code under test, run TLC, validate recorded traces.

Outcomes of a check (see bin/check):
  exit 0  every explored behaviour was accepted by the specification
  exit 1  + "VIOLATION property=<id> replay=<path>": the real code produced, twice, a
          behaviour that no action of the specification allows (or crashed / hung)
  exit 2  the machinery itself failed (build, TLC, vacuous trace): nothing is claimed
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8
FAST = bool(os.environ.get("VP_FAST"))     # for tools/mutate.py only: traces alone, no design models or probes

SKIP_DIRS = {".git", "_build", "tests", "build"}
DEFS = ["-DNDEBUG", "-DUSE_PTHREADS", "-msse", "-msse2", "-mfpmath=sse"]
CDEFS = ["-DNO_BLAS_WRAP", "-DADD_"]
INC = ["-I", REPO, "-I", f"{REPO}/ext/kissfft", "-I", f"{REPO}/ext/kissfft/tools",
       "-Dkiss_fft_scalar=double"]
CINC = ["-I", f"{REPO}/ext/clapack/include", "-I", f"{REPO}/ext/cblas/include"]
VARIANTS = {
    # the flags of build/linux/Makefile.linux64
    "rel": ["-O3", "-ftree-vectorize", "-g"],
    # memory and undefined-behaviour faults become events that no specification action allows
    "san": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize=vptr,alignment,float-divide-by-zero,shift",
            "-fno-sanitize-recover=undefined"],
}


class MachineryError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    """The library's sources: those that the library's own build lists, as they are now."""
    inc = open(f"{REPO}/build/general/Makefile.inc").read().replace("\\\n", " ")
    out = []
    for var in ("CLAPACK_SRC", "CBLAS_SRC", "SOURCES"):
        m = re.search(r"^%s\s*:=\s*(.*)$" % var, inc, re.M)
        out += [w for w in m.group(1).split() if w.endswith((".c", ".cpp"))]
    return out


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        ds[:] = sorted(x for x in ds if not (rel == "." and x in SKIP_DIRS))
        files += [os.path.join(d, f) for f in fs if f.endswith((".c", ".cpp", ".h", ".hh", ".cc"))]
    headers = [f for f in files if f.endswith((".h", ".hh"))]
    for f in sorted(headers):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


_hh = None


def compile_obj(src, variant, extra=()):
    """Compile one source file; objects are cached by the content of the source and all headers."""
    global _hh
    if _hh is None:
        _hh = tree_hash()
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    isc = path.endswith(".c")
    blas = "/clapack/" in path or "/cblas/" in path
    flags = list(VARIANTS[variant]) if not blas else ["-O2"]
    mine = path.startswith(VERIF)
    if isc:
        cmd = ["gcc", *flags, *DEFS, *CDEFS, *INC, *CINC, "-w", "-fPIC"]
    else:
        cmd = ["g++", *flags, *DEFS, *INC, "-w", "-fPIC", "-std=c++17" if mine else "-std=c++98"]
    cmd += list(extra)
    h = hashlib.sha256((_hh + json.dumps(cmd)).encode())
    h.update(path.encode()); h.update(open(path, "rb").read())
    if mine:
        for f in sorted(os.listdir(f"{VERIF}/harness")):
            if f.endswith(".h"):
                h.update(open(f"{VERIF}/harness/{f}", "rb").read())
    d = f"{BUILD}/obj"
    os.makedirs(d, exist_ok=True)
    obj = f"{d}/{os.path.basename(path)}.{h.hexdigest()[:24]}.o"
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.{hash(src) & 0xffff}.tmp.o"
        r = sh(cmd + ["-c", path, "-o", tmp])
        if r.returncode:
            raise MachineryError(f"compile failed: {' '.join(cmd)} {path}\n{r.stdout[-4000:]}")
        os.replace(tmp, obj)
    return obj


def build(name, harness, variant="san", wraps=(), extra=(), libextra=()):
    """Compile the harness and the library's current sources; return the executable."""
    jobs = [(f"{VERIF}/harness/{h}", extra) for h in harness] + [(s, libextra) for s in repo_sources()]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: compile_obj(j[0], variant, j[1]), jobs))
    k = len(harness)     # as a library: only what is used is linked, as in the repository's own build
    return link(name, objs[:k] + [archive(objs[k:])], wraps, VARIANTS[variant])


def archive(objs):
    key = hashlib.sha256("".join(objs).encode()).hexdigest()[:20]
    lib = f"{BUILD}/obj/lib.{key}.a"
    if not os.path.exists(lib):
        tmp = f"{lib}.{os.getpid()}.tmp"
        r = sh(["ar", "qcsD", tmp, *objs])
        if r.returncode:
            raise MachineryError(f"ar failed: {r.stdout[-2000:]}")
        os.replace(tmp, lib)
    return lib


def link(name, objs, wraps=(), flags=()):
    d = f"{BUILD}/bin"
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256("".join(objs + list(wraps)).encode()).hexdigest()[:16]
    exe = f"{d}/{name}.{key}"
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        cmd = ["g++", *flags, "-o", tmp, *objs]
        cmd += ["-Wl," + ",".join("--wrap=" + w for w in wraps)] if wraps else []
        cmd += ["-lpthread", "-lm"]
        r = sh(cmd)
        if r.returncode:
            raise MachineryError(f"link failed: {r.stdout[-4000:]}")
        os.replace(tmp, exe)
    return exe


def prune_build(limit_mb=1500):
    """Keep the object cache bounded."""
    d = f"{BUILD}"
    ents = []
    for dd in ("obj", "bin"):
        p = f"{d}/{dd}"
        if os.path.isdir(p):
            for f in os.listdir(p):
                try:
                    st = os.stat(f"{p}/{f}")
                    ents.append((st.st_atime, st.st_size, f"{p}/{f}"))
                except OSError:
                    pass
    tot = sum(e[1] for e in ents)
    for at, sz, p in sorted(ents):
        if tot < limit_mb * 1e6:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= sz


# ----------------------------------------------------------------------------- TLC

def capped(exe):
    """Code under test that allocates without end must fail in its own process, not exhaust the
    machine. A sanitizer build reserves terabytes of address space, so there the sanitizer's
    own limit on resident memory (ASAN_OPTIONS, record) takes this one's place."""
    with open(exe, "rb") as f:
        code = f.read()
    if b"__asan_init" in code or b"__tsan_init" in code:
        return [exe]
    return ["sh", "-c", 'ulimit -v 4194304; exec "$0" "$@"', exe]


def run_tlc(cmd, cwd, env, timeout, grace):
    """Run TLC; with a grace period, end it that long after it first reports an error in evaluating
    the specification (explaining one can take it many minutes)."""
    import threading
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, env=env)
    lines, state = [], {"started": False, "error": None}

    def read():
        size = 0
        for ln in p.stdout:
            size += len(ln)
            if size < 20_000_000:
                lines.append(ln)
            if "Finished computing initial states" in ln:
                state["started"] = True
            elif ln.startswith("Error: ") and state["started"] and state["error"] is None:
                state["error"] = time.time()
    t = threading.Thread(target=read, daemon=True)
    t.start()
    t0, killed = time.time(), False
    while p.poll() is None:
        time.sleep(0.02)
        now = time.time()
        if now - t0 > timeout or (grace is not None and state["error"] and now - state["error"] > grace):
            p.kill()
            killed = True
            break
    p.wait()
    t.join(10)
    return "".join(lines), (-9 if killed else p.returncode)


def tlc(module, cfg, env=None, workers=1, xmx="2g", timeout=600, args=(), fast=False, grace=None):
    meta = tempfile.mkdtemp(prefix="tlc", dir=ensure(f"{BUILD}/meta"))
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", f"-Xmx{xmx}", "-Xss64m",
           "-Xss64m"]
    if fast:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-cp", f"{JAR}:{CM}", "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
            "-noGenerateSpecTE", "-config", cfg, *args, module]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        out, rc = run_tlc(cmd, f"{VERIF}/spec", e, timeout, grace)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    st = {"rc": rc, "out": out, "wall": time.time() - t0, "generated": 0, "distinct": 0, "depth": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st["generated"], st["distinct"] = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        st["depth"] = int(m.group(1))
    st["ok"] = rc == 0 and "No error has been found" in out
    return st


def brief(out):
    keep = [x for x in out.splitlines() if not re.match(r"(Parsing file|Semantic processing|Running|TLC2 Version|Progress|Starting|Linting)", x)]
    t = "\n".join(keep)
    a, b = t.find("The behavior up to this point"), t.find("Error: The error occurred when TLC was evaluating")
    if a >= 0 and b > a:
        t = t[:a] + t[b:]
    return t[:3500]


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.kinds, self.models = [], [], {}, []
        self.corrupted = [0, 0]
        self.violations = []
        self.known = []
        self.work = ensure(f"{BUILD}/run/{prop}.{os.getpid()}")
        self.level = "model_checking"
        self.extra = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- exhaustive / simulated exploration of the specification itself
    def mc(self, module, cfg, workers=4, timeout=600, env=None, min_states=2, args=(), xmx="4g"):
        if FAST:
            return
        r = tlc(module, cfg, workers=workers, timeout=timeout, env=env, args=args, xmx=xmx)
        if not r["ok"]:
            raise MachineryError(f"TLC did not accept {module} / {cfg}:\n{brief(r['out'])}")
        if r["distinct"] < min_states:
            raise MachineryError(f"{module}/{cfg}: only {r['distinct']} states: vacuous")
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(f"{module} {cfg}: {r['distinct']} distinct states, {r['generated']} generated, "
                           f"depth {r['depth']}, {r['wall']:.1f}s")
        return r

    # -- run a harness, recording a trace
    def record(self, exe, args, out, timeout=300, env=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:abort_on_error=0:halt_on_error=1:"
                             "max_malloc_fill_size=1048576:malloc_fill_byte=67:detect_stack_use_after_return=0:"
                             "allocator_may_return_null=1:hard_rss_limit_mb=3000")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        e["LC_ALL"] = "C"
        e.update(env or {})
        if os.path.exists(out):
            os.unlink(out)
        errf = out + ".err"
        try:
            with open(errf, "w") as ef:
                r = subprocess.run([*capped(exe), "--out", out, *map(str, args)], stdout=subprocess.DEVNULL,
                                   stderr=ef, timeout=timeout, env=e, cwd=self.work)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        err = open(errf, errors="replace").read()[-200000:]
        if rc == 3:
            raise MachineryError(f"harness misuse: {exe} {args}: {err[-2000:]}")
        if not os.path.exists(out):
            open(out, "w").close()
        data = open(out, "rb").read()
        if data and not data.endswith(b"\n"):
            data = data[: data.rfind(b"\n") + 1]     # a line cut short by a crash
            open(out, "wb").write(data)
        if rc != 0:
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", err)
            what = m.group(1) if m else ("no result within the time limit" if rc == "timeout" else f"process ended with status {rc}")
            with open(out, "a") as f:
                f.write(json.dumps({"e": "Fault", "what": what[:300]}) + "\n")
        return rc

    def validate(self, module, cfg, trace, timeout=800, env=None, xmx="2g", fast=False):
        """Ask TLC whether the recorded trace is a behaviour of the specification."""
        n = sum(1 for _ in open(trace, "rb"))
        if n == 0:
            raise MachineryError(f"empty trace {trace}")
        e = {"TRACE": trace}
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout, xmx=xmx, fast=fast, grace=6)
        if os.environ.get("VP_STATS"):
            with open(os.environ["VP_STATS"], "a") as f:
                f.write(f"{self.prop} {module} {r['generated']} {r['distinct']} {r['wall']:.1f}\n")
        m = re.findall(r'"VP_DIAM", (\d+)', r["out"])
        err = re.search(r"Finished computing initial states.*?\nError: (.*?)\n", r["out"], re.S)
        if not m and err and not re.search("OutOfMemory|StackOverflow|Java heap", r["out"]):
            # the specification has no value for what was recorded: find the event
            k = r["depth"] - 1 if r["depth"] > 0 else self.first_undefined(module, cfg, trace, n, e, timeout, xmx)
            return {"ok": False, "accepted": k, "n": n, "undefined": err.group(1)[:300],
                    "generated": r["generated"], "distinct": r["distinct"], "wall": r["wall"]}
        if not m:
            raise MachineryError(f"TLC failed on {module} with trace {trace}:\n{brief(r['out'])}")
        d = int(m[-1])
        ok = r["ok"] and d == n
        if not ok and d >= n:
            raise MachineryError(f"TLC: {module} {trace}: accepted {d}/{n} but failed\n{r['out'][-3000:]}")
        return {"ok": ok, "accepted": d, "n": n, **{k: r[k] for k in ("generated", "distinct", "wall")}}

    def first_undefined(self, module, cfg, trace, n, env, timeout, xmx):
        """Number of events before the first one that TLC cannot evaluate (by bisection over prefixes)."""
        lines = open(trace).read().splitlines()
        lo, hi = 0, n                      # prefix lo evaluates, prefix hi does not
        part = trace + ".part"
        while hi - lo > 1:
            mid = (lo + hi) // 2
            open(part, "w").write("\n".join(lines[:mid]) + "\n")
            r = tlc(module, cfg, env={**env, "TRACE": part}, timeout=timeout, xmx=xmx, grace=0.2)
            if '"VP_DIAM"' in r["out"]:
                lo = mid
            else:
                hi = mid
        return lo

    def _one(self, exe, args, module, cfg, tag, timeout, env, repro):
        out = f"{self.work}/{tag}.ndjson"
        rc = self.record(exe, args, out, timeout, env)
        v = self.validate(module, cfg, out)
        if not v["ok"] and repro and not FAST:
            # only a rejection that a fresh run repeats is reported
            out2 = f"{self.work}/{tag}.again.ndjson"
            self.record(exe, args, out2, timeout, env)
            v2 = self.validate(module, cfg, out2)
            if v2["ok"]:
                raise MachineryError(f"rejection of {out} at line {v['accepted']+1} was not repeated")
        return out, rc, v

    def trace(self, exe, args, module, cfg, shards=NCPU, tag=None, need=(), timeout=300, env=None,
              observed=(), probe=True, describe=None):
        """Record `shards` traces in parallel, validate each with TLC."""
        tag = tag or os.path.basename(module).replace(".tla", "")
        jobs = []
        for s in range(shards):
            jobs.append((exe, [*args, "--seed", self.seed, "--tier", self.tier, "--shard", s, "--nshards", shards],
                         module, cfg, f"{tag}.{s}", timeout, env, True))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda j: self._one(*j), jobs))
        kinds = {}
        for (out, rc, v), j in zip(res, jobs):
            lines = open(out).read().splitlines()
            for ln in lines:
                k = re.match(r'\{"e": ?"([^"]*)"', ln)
                k = k.group(1) if k else "?"
                kinds[k] = kinds.get(k, 0) + 1
            self.traces += 1
            self.events += v["accepted"]
            self.states += v["distinct"]
            self.transitions += v["accepted"]
            if not v["ok"]:
                self.reject(out, v, j, lines)
        for k, n in kinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + n
        if not self.violations:
            for k in need:
                if kinds.get(k, 0) == 0:
                    raise MachineryError(f"vacuous: no event {k} in any trace of {tag}")
            out = res[0][0]
            lines = open(out).read().splitlines()
            if len(self.samples) < 4:
                self.samples.append({"trace": tag, "args": " ".join(map(str, jobs[0][1])),
                                     "first_events": [ln[:300] for ln in lines[:3]]})
            if probe and observed and not FAST:
                self.probe(res, module, cfg, observed, tag)
        return res

    def probe(self, res, module, cfg, observed, tag):
        """Binding self-test: corrupt one observed field; TLC must reject exactly there."""
        import random
        rnd = random.Random(self.seed)
        for spec in observed:
            kind, _, field = spec.rpartition(".")
            done = False
            for out, rc, v in res:
                lines = open(out).read().splitlines()
                idx = [i for i, ln in enumerate(lines) if f'"{field}"' in ln and (not kind or f'"e":"{kind}"' in ln)]
                rnd.shuffle(idx)
                for i in idx[:200]:
                    ev = json.loads(lines[i])
                    new = corrupt(ev.get(field), rnd)
                    if new is None:
                        continue
                    ev[field] = new
                    cut = lines[:i] + [json.dumps(ev)]
                    p = f"{self.work}/{tag}.probe.ndjson"
                    open(p, "w").write("\n".join(cut) + "\n")
                    try:
                        pv = self.validate(module, cfg, p)
                        rejected = not pv["ok"]
                    except MachineryError:
                        rejected = True
                    self.corrupted[0] += 1
                    self.corrupted[1] += rejected
                    if not rejected:
                        self.notes.append(f"probe of {spec} in {ev['e']} was not rejected")
                    done = True
                    break
                if done:
                    break

    def reject(self, out, v, job, lines):
        exe, args = job[0], job[1]
        i = v["accepted"]
        ctxt = lines[max(0, i - 12): i + 1]
        start = i
        while start > 0 and '"e":"Scenario"' not in lines[start].replace(" ", ""):
            start -= 1
        d = ensure(f"{BUILD}/replay/{self.prop}")
        p = f"{d}/{os.path.basename(out)}.json"
        desc = {"property": self.prop, "specification": job[2], "config": job[3],
                "harness": os.path.basename(exe), "args": [str(a) for a in args],
                "rejected_event_number": i + 1,
                "scenario": lines[start][:2000] if start < len(lines) else None,
                "rejected_event": lines[i][:20000] if i < len(lines) else None,
                "preceding_events": [x[:4000] for x in ctxt[:-1]],
                "undefined": v.get("undefined"),
                "explanation": "the last event is not allowed by any action of the specification after the preceding ones"}
        json.dump(desc, open(p, "w"), indent=1)
        keep = f"{d}/{os.path.basename(out)}"
        open(keep, "w").write("\n".join(lines[start: i + 1]) + "\n")
        if os.path.exists(out + ".err"):
            shutil.copy(out + ".err", keep + ".err")
        self.violations.append((p, f"{os.path.basename(job[2])} rejects event {i+1}: {(lines[i] if i < len(lines) else '?')[:400]}"))

    def violation(self, name, text, data=None):
        d = ensure(f"{BUILD}/replay/{self.prop}")
        p = f"{d}/{name}.json"
        json.dump({"property": self.prop, "what": text, "data": data}, open(p, "w"), indent=1, default=str)
        self.violations.append((p, text))

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events_accepted": self.events, "event_kinds": self.kinds,
               "models": self.models, "samples": self.samples or [{"none": True}],
               "corrupted_fields_tried": self.corrupted[0], "corrupted_fields_rejected": self.corrupted[1],
               "notes": self.notes, **self.extra}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        ensure(f"{VERIF}/evidence")
        json.dump(ev, open(f"{VERIF}/evidence/{self.prop}.json", "w"), indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for p, t in self.violations[:3]:
            print(t)
            print(f"VIOLATION property={self.prop} replay={p}")
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        prune_build()
        return 1 if self.violations else 0


def corrupt(v, rnd):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1000
    if isinstance(v, list) and v:
        k = rnd.randrange(len(v))
        c = corrupt(v[k], rnd)
        if c is None:
            return None
        w = list(v)
        w[k] = c
        return w
    if isinstance(v, str):
        return v + "?"
    return None
