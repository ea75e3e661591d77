TECHNIQUE = "TLA+: peak rule and conditioning specified over exact integers + TLC validation of recorded peak-picking calls"
NOTE = ("Every recorded PeakPicking call is judged by TLC: smoothed function recomputed, reported onsets compared with the set of qualifying local maxima (exact ranks for comparisons, "
        "least-squares quadratic over five points, thresholds with a small rounding margin), list handling, inputs of every small length.")

def run(ctx):
    from vp import build
    ctx.mc("FilterImpl.tla", "FilterImpl_quick.cfg", min_states=1000)
    exe = build("dfproc", ["dfproc.cpp"], "san")
    ctx.trace(exe, ["--mode", "pick"], "DFProcTrace.tla", "Trace.cfg", observed=["Pick.out", "Pick.after"], need=["New", "Pick", "PickShort"], timeout=ctx.pick(250, 2500))
    ctx.assumptions = ["the length given is the configured length; the detection function is not silent"]
