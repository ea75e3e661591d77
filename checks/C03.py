from threadlib import build_sched, sched_stats

TECHNIQUE = 'TLA+: linearizability-style mutex specification (TLC exhaustive) + TLC validation of scheduled traces with silent linearization steps'
NOTE = 'Pairs and triples of lock/try/unlock/scope programs under preemption-bounded exhaustive and random memory-access-level schedules.'

def run(ctx):
    ctx.mc("MutexSpec.tla", "MutexSpec_quick.cfg", min_states=100)
    if ctx.thorough:
        ctx.mc("MutexSpec.tla", "MutexSpec_thorough.cfg", workers=8, min_states=1000, timeout=2500)
    exe = build_sched(ctx, "threads", ["threads.cpp", "sched.cpp"], ["thread/Thread.cpp"])
    res = ctx.trace(exe, ["--mode", "mutex"], "MutexTrace.tla", "TraceHW.cfg",
                    observed=["Tried.r", "Locked.m", "End.live"],
                    need=["Locked", "Tried", "Unlocked", "Block", "End"], timeout=ctx.pick(200, 2500))
    sched_stats(ctx, res)
    ctx.assumptions = ["locking a mutex the thread already holds is a documented error and is not exercised"]
