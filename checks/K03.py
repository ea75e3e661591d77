TECHNIQUE = "TLA+ specification of tonal centroids, gram and Gaussian change measure + TLC validation of recorded histories"
NOTE = ("Every recorded call (projection and L1 normalisation of chroma vectors; interleaved TCSGrams with additions, clears, changes of duration and look-ups inside and outside; change functions of "
        "smoothing widths 0-10 over grams of any length) is recomputed by TLC from the defining formulas. Storage is pre-filled with junk so that uninitialised state shows.")

def run(ctx):
    from vp import build
    exe = build("tonal", ["tonal.cpp"], "san")
    ctx.trace(exe, [], "TonalTrace.tla", "Trace.cfg", observed=["Transform.t", "Normalised.out", "Normalised.t", "Add.size", "Get.v", "Times.t", "Times.dur", "Change.d"],
              need=["Transform", "Normalised", "NewGram", "Add", "Get", "Times", "Change", "Clear", "SetDuration"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["fixed-point tolerance about 0.1 % of full scale"]
