from vp import MachineryError
import vp
from threadlib import build_sched, sched_stats

TECHNIQUE = 'TLA+: exhaustive TLC check of the lock-level protocol (refinement, deadlock, liveness) + TLC validation of traces from systematically scheduled real threads'
NOTE = "Protocol specification exhaustively checked (refines the call-level spec, with spurious wakeups, liveness under fairness). Conformance: all schedules with <=2-3 preemptions of small scenarios plus random memory-access-level schedules of the real code are recorded and each distinct one is validated by TLC. Trusts the scheduler's model of pthreads."

def run(ctx):
    ctx.mc("AsyncTaskImpl.tla", "AsyncTaskImpl_quick.cfg", min_states=2000)
    if ctx.thorough:
        ctx.mc("AsyncTaskImpl.tla", "AsyncTaskImpl_thorough.cfg", workers=8, min_states=20000, timeout=3000)
    # the specification must be able to tell the difference: without re-testing, a spurious wakeup breaks it
    r = vp.tlc("AsyncTaskImpl.tla", "AsyncTaskImpl_unpredicated.cfg")
    if r["ok"] or "violated" not in r["out"]:
        raise MachineryError("AsyncTaskImpl without a predicate was accepted")
    exe = build_sched(ctx, "asynctask", ["asynctask.cpp", "sched.cpp"], ["asynctask_sut.cpp", "thread/Thread.cpp"])
    res = ctx.trace(exe, [], "AsyncTaskTrace.tla", "Trace.cfg",
                    observed=["PerformBegin.v", "AwaitEnd.v", "PerformBegin.t", "DestroyEnd.workerEnded", "End.live"],
                    need=["Request", "PerformBegin", "PerformEnd", "AwaitEnd", "DestroyEnd", "End", "Spurious"],
                    timeout=ctx.pick(200, 2500))
    sched_stats(ctx, res)
    ctx.assumptions = ["one caller per task object, requests and awaits alternate (the class's documented pattern)",
                       "exhaustive schedules switch at pthread operations (2-3 preemptions); random schedules switch at memory accesses too"]
