TECHNIQUE = "TLA+ specification of history and reset (result = function of class, settings, calls since reset) + TLC model checking of the scratch/reset design + TLC validation of recorded histories against pristine processes"
NOTE = ("Calls on objects of 31 classes are recorded in a pristine process and then repeated, in any order for stateless classes and after every kind of past and a reset for the others, with memory filled with varying garbage; "
        "TLC keeps every result seen by class, settings and history and rejects any call that returns something else, and any call that modifies its input.")

def run(ctx):
    from vp import build
    ctx.mc("InstanceImpl.tla", "InstanceImpl_thorough.cfg" if ctx.thorough else "InstanceImpl_quick.cfg", min_states=500, timeout=ctx.pick(200, 1500))
    exe = build("instances", ["instances.cpp"], "rel", wraps=["time", "exit"])
    ctx.trace(exe, ["--mode", "past"], "InstanceTrace.tla", "Trace.cfg", observed=["Again.out"], need=["New", "Call", "Again", "Reset", "Process"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["results equal to 1e-9 of their size count as the same", "random seeds taken from the clock are fixed"]
