TECHNIQUE = "TLA+ definitions of the helpers on whole numbers and fixed point, with the buffer that in-place operations change as state + TLC validation of recorded calls"
NOTE = ("TLC computes power-of-two queries (every power up to 2^30 and its neighbours, ties, non-positive and extreme values), gcd, factorial, rounding at halves, floored modulus, phase wrapping at multiples of a half turn, extrema, sums, means over ranges, "
        "medians, alpha and Lp norms, normalisation, adaptive threshold, circular shift histories, classification of non-finite values. Array and vector forms compared, buffers exact under ASan.")

def run(ctx):
    from vp import build
    exe = build("mathutil", ["mathutil.cpp"], "san")
    ctx.trace(exe, [], "MathTrace.tla", "Trace.cfg", observed=["Pow2.next", "Pow2.near", "Gcd.g", "Round.r", "Mod.r", "Princarg.r", "MinMax.max", "Max.i", "Sum.mean", "Range.mean", "Median.m2", "Big.m2", "Alpha.r", "Lp.r", "NormaliseLp.out", "Normalise.out", "Threshold.out", "Shift.out"],
              need=["Pow2", "Gcd", "Fact", "Round", "Mod", "Princarg", "MinMax", "Max", "Sum", "Range", "Median", "Alpha", "Lp", "NormaliseLp", "Normalise", "Threshold", "Shift", "Odd", "Big"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["queries whose answer would exceed 2^30 are excluded", "either end of the half-turn interval is accepted for phase wrapping (documentation and tests disagree)", "gcd of non-negative numbers, the second positive", "circular shift by a non-negative count"]
