from threadlib import build_sched, sched_stats

TECHNIQUE = 'TLA+: TLC-checked life-cycle specification + TLC validation of traces from systematically scheduled real threads'
NOTE = 'All call scripts up to length 5 (7 thorough) under preemption-bounded and random schedules of the real Thread class; every distinct recorded behaviour must be one of the specification.'

def run(ctx):
    ctx.mc("ThreadLife.tla", "ThreadLife_quick.cfg", min_states=100)
    exe = build_sched(ctx, "threads", ["threads.cpp", "sched.cpp"], ["thread/Thread.cpp"])
    res = ctx.trace(exe, ["--mode", "life"], "ThreadLifeTrace.tla", "Trace.cfg",
                    observed=["Id.t", "RunBegin.t", "End.unjoined"],
                    need=["Start", "RunBegin", "RunEnd", "Waited", "Destroyed", "Id", "End"], timeout=ctx.pick(200, 2500))
    sched_stats(ctx, res)
    ctx.assumptions = ["start is not called while an earlier run has not been waited for (class contract)"]
