from threadlib import build_sched, sched_stats

TECHNIQUE = 'TLA+: condition-variable specification with tokens and virtual time (TLC exhaustive) + TLC validation of scheduled traces'
NOTE = 'Waiter/signaller programs under bounded-exhaustive and random schedules with spurious wakeups; timed waits at all boundary phases of the virtual clock.'

def run(ctx):
    ctx.mc("CondSpec.tla", "CondSpec_quick.cfg", min_states=1000)
    if ctx.thorough:
        ctx.mc("CondSpec.tla", "CondSpec_thorough.cfg", workers=8, min_states=5000, timeout=2500)
    exe = build_sched(ctx, "threads", ["threads.cpp", "sched.cpp"], ["thread/Thread.cpp"])
    res = ctx.trace(exe, ["--mode", "cond"], "CondTrace.tla", "TraceHW.cfg",
                    observed=["Wait.us", "Woken.t", "End.live"],
                    need=["Locked", "Wait", "Woken", "Signal", "Signaled", "Spurious", "Stuck", "UnlockNone", "End"], timeout=ctx.pick(200, 2500))
    sched_stats(ctx, res)
    ctx.assumptions = ["virtual clock; the platform's condition variable may wake spuriously and wakes any one waiter per signal"]
