TECHNIQUE = "TLA+ definitions of the distances, beat spectrum and auto-correlation in fixed point + TLC validation of recorded calls"
NOTE = ("TLC computes cosine distances (zero, parallel, opposite, unlike-sized and rescaled vectors), symmetric Kullback-Leibler distances of Gaussians and of distributions with empty cells, long and rescaled ones, beat spectra of periodic and random feature sequences, "
        "and auto-correlations at every lag, and judges symmetry, identity, range and independence of earlier calls from the arguments seen so far.")

def run(ctx):
    from vp import build
    exe = build("metric", ["metric.cpp"], "san")
    ctx.trace(exe, [], "MetricTrace.tla", "Trace.cfg", observed=["Cosine.d", "Cosine.scaled", "Gauss.d", "Dist.d", "Dist.s", "Beat.v", "Auto.d", "Auto.pos"], need=["Cosine", "Gauss", "Dist", "Beat", "Auto"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["values to a few 1e-4; identity and symmetry to 1e-6", "beat spectra of sequences without any dissimilarity are only required to stay within range (rounding noise is normalised)"]
