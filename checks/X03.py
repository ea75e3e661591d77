TECHNIQUE = "TLA+ specification of what objects hold and give back + TLC model checking of the ownership design + TLC validation of recorded allocation histories"
NOTE = ("Every allocation made while an object of any class is constructed, called or reset is accounted to it by replaced allocation functions; TLC rejects any history in which a destroyed object still holds something, "
        "a block is released by means not matching the way it was acquired, a stateless call keeps something, or an object called again and again with the same inputs comes to hold more and more.")

def run(ctx):
    from vp import build
    ctx.mc("LifetimeImpl.tla", "LifetimeImpl_thorough.cfg" if ctx.thorough else "LifetimeImpl_quick.cfg", min_states=10000, timeout=ctx.pick(300, 2000))
    exe = build("lifetime", ["lifetime.cpp"], "rel", libextra=("-fno-allocation-dce",), wraps=["time", "malloc", "calloc", "realloc", "free"])
    ctx.trace(exe, [], "LifetimeTrace.tla", "Trace.cfg", observed=["Delete.blocks", "Delete.bytes"], need=["New", "Call", "Reset", "Delete", "End"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["objects are used by one thread; memory taken by the threading library for a thread is not accounted", "whatever is made once on first use and kept for good is not held by an object"]
