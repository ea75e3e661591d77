from vp import MachineryError
import vp

TECHNIQUE = "TLA+ specification of which memory objects' operations touch + TLC model checking of interleaved operations + TLC validation of recorded memory accesses"
NOTE = ("Every memory access of the library's code, instrumented by the compiler, is accounted to the object it is made for while objects of all classes are made, called, reset and destroyed in turn; TLC rejects a place that one object's "
        "operations write and another's touch other than under a lock. The model shows that this condition keeps every result what it would be alone, and that breaking it loses results. What the C and C++ libraries do inside is trusted.")
WRAPS = ["time", "malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once",
         "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]

def run(ctx):
    for cfg in ["ShareImpl_quick.cfg", "ShareImpl_constant.cfg"] + (["ShareImpl_thorough.cfg"] if ctx.thorough else []):
        ctx.mc("ShareImpl.tla", cfg, min_states=5000, timeout=ctx.pick(300, 2500))
    for cfg in ("ShareImpl_sharedscratch.cfg", "ShareImpl_unguarded.cfg"):
        r = vp.tlc("ShareImpl.tla", cfg)
        if r["ok"] or "violated" not in r["out"]:
            raise MachineryError(f"{cfg} was accepted")
    vp.VARIANTS["mem"] = ["-O1", "-g", "-fsanitize=thread"]
    vp.VARIANTS["plainO1"] = ["-O1", "-g"]
    H = f"{vp.VERIF}/harness"
    jobs = [(f"{H}/shadow.cpp", "plainO1", ()), (f"{H}/sharing.cpp", "mem", ())]
    jobs += [(s, "mem", ("-fsanitize=thread",) if s.startswith("ext/") else ()) for s in vp.repo_sources()]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: vp.compile_obj(*j), jobs))
    exe = vp.link("sharing", objs[:2] + [vp.archive(objs[2:])], WRAPS)
    res = ctx.trace(exe, [], "ShareTrace.tla", "Trace.cfg", observed=["Read.by", "Write.by"], need=["New", "Read", "Write", "End"], timeout=ctx.pick(400, 2800))
    seen = set()
    for r in res:
        for line in open(r[0]):
            for name in ("CBLAS_CallFromC", "RowMajorStrg"):
                if f'"{name}"' in line and '"e":"Write"' in line:
                    seen.add(name)
    if seen:
        ctx.known.append("ext/cblas keeps " + " and ".join(sorted(seen)) + " (how its caller called it, read by its error messages only) in variables that all threads share")
    ctx.assumptions = ["accesses inside the C and C++ libraries (allocation, rand, output streams) are theirs to order",
                       "objects are not handed the same output memory; inputs may be shared"]
