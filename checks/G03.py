TECHNIQUE = "TLA+ definition of principal components + TLC validation of recorded projections"
NOTE = ("For data of 1-12 points in 1-6 dimensions (random, axis-aligned, rank-deficient, constant) TLC checks centring, preservation of all inner products, uncorrelated components in order of decreasing variance, "
        "and that asking for fewer components gives the first of them.")

def run(ctx):
    from vp import build
    exe = build("pca", ["pca.cpp"], "san")
    ctx.trace(exe, [], "PcaTrace.tla", "Trace.cfg", observed=["Project.full", "Project.part"], need=["Project"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["inner products to the rounding of components given to 1/100"]
