import re
from vp import MachineryError, build
WRAPS = ["pthread_create", "pthread_join", "pthread_detach", "pthread_mutex_lock", "pthread_mutex_trylock",
         "pthread_mutex_unlock", "pthread_mutex_destroy", "pthread_cond_wait", "pthread_cond_timedwait",
         "pthread_cond_signal", "pthread_cond_broadcast", "gettimeofday", "clock_gettime", "usleep", "nanosleep", "sched_yield"]

def sched_stats(ctx, res):
    tot = {}
    for out, rc, v in res:
        for k, n in re.findall(r"(\w+)=(\d+)", open(out + ".err").read()):
            tot[k] = tot.get(k, 0) + int(n)
    ctx.extra["schedules"] = tot
    if not ctx.violations and tot.get("runs", 0) < 100:
        raise MachineryError(f"too few schedules explored: {tot}")

def build_sched(ctx, name, plain, sut):
    """plain: harness files; sut: files (harness or library) whose memory accesses become scheduling points."""
    import vp
    vp.VARIANTS["mem"] = ["-O1", "-g", "-fsanitize=thread"]
    vp.VARIANTS["plainO1"] = ["-O1", "-g"]
    def objs(variant):
        import concurrent.futures as cf
        jobs = [(f"{vp.VERIF}/harness/{p}", "plainO1") for p in plain]
        thread = [x for x in vp.repo_sources() if x.startswith("thread/")]
        jobs += [(x, variant) for s in sut for x in (thread if s.startswith("thread/") else [f"{vp.VERIF}/harness/{s}"])]
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: vp.compile_obj(j[0], j[1]), jobs))
    for variant in ("mem", "rel"):
        try:
            return vp.link(name, objs(variant), WRAPS)
        except MachineryError:
            if variant == "rel":
                raise
            ctx.notes.append("memory-access instrumentation not usable for this tree; pthread operations only")
