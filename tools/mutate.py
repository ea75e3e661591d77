#!/usr/bin/env python3
"""mutate.py WORKDIR N FILE:CHECK[,CHECK]...: mutation survey of the checks, in a copy of /repo under WORKDIR (not part of any check).
Per file, N random one-token mutants; each is run against the checks named; those none of them catches go through the
repository's tests (in WORKDIR too), and what also passes those is appended to WORKDIR/survivors.txt."""
import json, os, random, re, shutil, subprocess, sys
W, N = sys.argv[1], int(sys.argv[2])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = f"{W}/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(W, exist_ok=True)
if not os.path.isdir(REPO): sh(f"cp -a /repo {REPO}")
sh(f"git -C {REPO} checkout -q -- . ; git -C {REPO} fetch -q /repo HEAD && git -C {REPO} reset -q --hard FETCH_HEAD")
OPS = [(r"<=", ["<", "=="]), (r">=", [">", "=="]), (r"(?<![<>\-=])<(?![<=])", ["<="]), (r"(?<![<>\-=])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w\])] )\+(?= [\w(])", ["-"]), (r"(?<=[\w\])] )-(?= [\w(])", ["+"]), (r"(?<=[\w\])] )\*(?= [\w(])", ["/"]), (r"(?<=[\w\])] )/(?= [\w(])", ["*"]),
       (r"(?<=[\w\])])\+(?=[\w(])", ["-"]), (r"(?<=[\w\])])-(?=[\w(])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]), (r"\*=", ["/="]), (r"/=", ["*="]),
       (r"(?<![\w.\[])(\d+)(?![\w.\]])", ["INC", "DEC"]), (r"(?<=\[)(\d+)(?=\])", ["INC"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])(\d+\.\d+)(?![\w])", ["SCALE"]),
       (r"\bbreak;", [""]), (r"\bcontinue;", [""]), (r"\babs\b|\bfabs\b", [""]), (r"(?<=\()!(?=\w)", [""]), (r"\bi\b", ["j"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
       (r"^\s*[\w\->\[\]. *()+]+ [\-+*/]?= [^;={]*;\s*$", ["DEL"]), (r"^\s*\w[\w\->.]*\([^;{]*\);\s*$", ["DEL"]), (r"\+ 1\b", [""]), (r"- 1\b", [""]), (r"\+1\b", [""]), (r"-1\b", [""]), (r"\bint\b\(", ["lrint("]), (r"\bfloor\(", ["ceil("]), (r"\bceil\(", ["floor("])]
def mutants(path):
    src = open(path, encoding="latin-1").read().split("\n"); out = []; com = False
    for n, ln in enumerate(src):
        code = ln
        if "/*" in code and "*/" not in code: com = True; continue
        if com:
            if "*/" in code: com = False
            continue
        if re.match(r"\s*(#|//|\*|/\*|using|namespace|template|class|struct|extern)", code) or not code.strip(): continue
        if re.search(r"cerr|cout|printf|throw|assert|_IDEBUG", code): continue
        body = code.split("//")[0]
        if re.search(r"^\s*\{?[-\d., e+]+[},;]*\s*$", body): continue
        for pat, subs in OPS:
            for m in re.finditer(pat, body):
                if pat.startswith("(?<![<>\\-=])") and re.search(r"vector|static_cast|complex|map|pair|T>|std::", body): continue
                for s in subs:
                    if s == "INC": t = str(int(m.group(1)) + 1)
                    elif s == "DEC":
                        if int(m.group(1)) == 0: continue
                        t = str(int(m.group(1)) - 1)
                    elif s == "SCALE": t = repr(float(m.group(1)) * 1.1 + 0.01)
                    elif s == "DEL":
                        out.append((n, ln, "")); continue
                    else: t = s
                    new = body[:m.start()] + t + body[m.end():]
                    out.append((n, ln, new))
    return sorted(set(out))
TESTS = r'''
cd %s/tests && make -s -j8 -C .. -f build/linux/Makefile.linux64 >/dev/null 2>&1
''' % REPO
def tests_pass():
    """the repository's tests, built from the copy"""
    inc = f"-I{REPO} -I{REPO}/include -I{REPO}/ext/kissfft -I{REPO}/ext/kissfft/tools -Dkiss_fft_scalar=double -DUSE_PTHREADS"
    code = f'import sys,os; sys.path.insert(0,"{V}/bin"); os.environ["VP_REPO"]="{REPO}"; sys.dont_write_bytecode=True\nimport vp\nfrom concurrent.futures import ThreadPoolExecutor as T\nprint(vp.archive(list(T(8).map(lambda s: vp.compile_obj(s,"rel"), vp.repo_sources()))))'
    r = sh(f"VP_REPO={REPO} python3 -c '{code}'")
    if r.returncode: return None
    lib = r.stdout.strip().split("\n")[-1]
    ts = [t for t in sorted(os.listdir(f"{REPO}/tests")) if re.match(r"Test\w+\.cpp$", t)]
    cmd = " ; ".join(f"(g++ -O1 -w -std=c++11 -g {inc} {REPO}/tests/{t} {lib} -lboost_unit_test_framework -DBOOST_TEST_DYN_LINK -lpthread -o {W}/t.{t[:-4]} && timeout 100 {W}/t.{t[:-4]} >{W}/t.{t[:-4]}.log 2>&1 || echo FAIL {t}) &" for t in ts)
    r = sh(f"cd {REPO}/tests; " + cmd.replace("& ;", "&") + " wait")
    return set(re.findall(r"FAIL (\S+)", r.stdout))
base = tests_pass()
print("tests failing unmutated:", base, flush=True)
rnd = random.Random(int(os.environ.get("MSEED", "1")))
env = dict(os.environ, VP_REPO=REPO, VP_FAST="1", PYTHONDONTWRITEBYTECODE="1")
for spec in sys.argv[3:]:
    f, cs = spec.split(":"); p = f"{REPO}/{f}"; orig = open(p, encoding="latin-1").read(); ms = mutants(p); rnd.shuffle(ms)
    st = {"caught": 0, "tests": 0, "nocompile": 0, "survive": 0, "noanswer": 0}; done = 0
    for n, old, new in ms:
        if done >= N: break
        L = orig.split("\n"); L[n] = new; open(p, "w", encoding="latin-1").write("\n".join(L))
        if sh(f"g++ -fsyntax-only -w -I{REPO} -I{REPO}/include -I{REPO}/ext/kissfft -I{REPO}/ext/kissfft/tools -I{REPO}/ext/clapack/include -I{REPO}/ext/cblas/include -Dkiss_fft_scalar=double -DUSE_PTHREADS -x {'c' if f.endswith('.c') else 'c++'} {'-fpermissive' if 0 else ''} {p}").returncode:
            st["nocompile"] += 1; continue
        done += 1; got = None; no = None
        for c in cs.split(","):
            try: r = subprocess.run([f"{V}/bin/check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            except subprocess.TimeoutExpired: no = (c, "timeout"); continue
            if r.returncode == 1: got = c; break
            if r.returncode != 0: no = (c, r.stdout[-300:])
        if got: st["caught"] += 1; continue
        t = tests_pass()
        if t is None or t - base: st["tests"] += 1; continue
        st["noanswer" if no else "survive"] += 1
        line = f"{'NOANSWER ' + str(no) if no else 'SURVIVES'} {f}:{n+1} [{cs}]\n   - {old.strip()}\n   + {new.strip()}"
        print(line, flush=True); open(f"{W}/survivors.txt", "a").write(line + "\n")
    open(p, "w", encoding="latin-1").write(orig)
    print("==", f, cs, st, flush=True)
