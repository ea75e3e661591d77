TECHNIQUE = "TLA+ statement of least squares (orthogonal residuals) + TLC validation of recorded fits"
NOTE = ("For fits with 1-9 terms to 2-12 points at places of very different width (repeated places, exact interpolation, constant and polynomial data included) TLC checks that the residuals are orthogonal to every power in use, which characterises the least-squares polynomial, "
        "that the returned quality is the root of the explained share of the variance, and that unusable arguments are declined leaving the coefficients alone.")

def run(ctx):
    from vp import build
    exe = build("poly", ["poly.cpp"], "san")
    ctx.trace(exe, [], "PolyTrace.tla", "Trace.cfg", observed=["Fit.c", "Fit.q", "Declined.q", "Values.f"], need=["Fit", "Values", "Declined"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["coefficients to 1e-4; at least as many distinct places as terms"]
