TECHNIQUE = "TLA+: exhaustive TLC check that the allocator's bookkeeping refines an abstract allocator + TLC validation of recorded histories"
NOTE = ("Bookkeeping model (free chains, room stack) exhaustively checked at 2x3 and 3x2 units; long random histories of the real allocator, "
        "crossing block limits and beyond 1024 blocks, recorded under AddressSanitizer and validated by TLC: disjointness, contents, reuse before growth.")

def run(ctx):
    from vp import build
    ctx.mc("BlockAllocImpl.tla", "BlockAllocImpl_quick.cfg", min_states=5000)
    if ctx.thorough:
        ctx.mc("BlockAllocImpl.tla", "BlockAllocImpl_thorough.cfg", workers=8, min_states=100000, timeout=3000)
    exe = build("blockalloc", ["blockalloc.cpp"], "san")
    ctx.trace(exe, [], "BlockAllocTrace.tla", "Trace.cfg", observed=["Read.tag", "Bulk.overlaps", "Bulk.growths"],
              need=["Alloc", "Free", "Read", "Write", "FreeNull", "Bulk", "End"], timeout=ctx.pick(200, 2500))
    ctx.assumptions = ["element sizes of at least one byte", "regions are recognised through operator new[]; if an implementation takes memory otherwise the reuse rule is not decided"]
