TECHNIQUE = "TLA+ definition of every window shape (fixed-point trigonometry and Bessel series in TLA+) and of copying and cutting + TLC validation of recorded histories"
NOTE = ("TLC computes each value of windows of all six shapes, single and double precision, sizes 1-512 (and up to 32768 at chosen places), of Kaiser windows (length and beta from attenuation and transition or bandwidth, both sides of each case distinction, lengths 1-60) "
        "beta to 19, and sinc windows (lengths 0-80 and longer, whole and half-integral periods) from the formulas, and judges symmetry, range, unit peaks, zeros, copies, assignments and cuts in place and between buffers. Under ASan.")

def run(ctx):
    from vp import build
    exe = build("window", ["window.cpp"], "san")
    ctx.trace(exe, [], "WindowTrace.tla", "Trace.cfg", observed=["New.w", "Look.w", "Cut.dst", "Params.len", "Params.beta", "ParamsBand.len"], need=["New", "Look", "Cut", "Large", "Copy", "Assign", "Params", "ParamsBand"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["values to 4e-4 of the formula (Kaiser 25e-4 for beta up to 10, shape only beyond), symmetry to 1e-6"]
