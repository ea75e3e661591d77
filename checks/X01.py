TECHNIQUE = "TLA+ specification of independent objects (result = function of class, settings, own history) + TLC model checking of the shared-table design + TLC validation of interleaved runs against pristine processes"
NOTE = ("Scripts of calls to objects of 31 classes are run alone, each in a pristine process, and then all at once in one process in random interleavings, next to bystanders that come and go, with freshly allocated memory filled with varying garbage; "
        "TLC keeps every result seen by class, settings and history and rejects any call that returns something else.")

def run(ctx):
    from vp import build
    ctx.mc("InstanceImpl.tla", "InstanceImpl_thorough.cfg" if ctx.thorough else "InstanceImpl_quick.cfg", min_states=500, timeout=ctx.pick(200, 1500))
    exe = build("instances", ["instances.cpp"], "rel", wraps=["time", "exit"])
    ctx.trace(exe, ["--mode", "many"], "InstanceTrace.tla", "Trace.cfg", observed=["Again.out"], need=["New", "Call", "Again", "Delete", "Process"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["results equal to 1e-9 of their size count as the same", "objects are used by one thread at a time; random seeds taken from the clock are fixed"]
