TECHNIQUE = "TLA+: exhaustive TLC check of path decoding against all paths + TLC validation of recorded beat period calls (optimality recomputed by TLC)"
NOTE = ("Path decoding (best-predecessor recursion and backtrace) is checked exhaustively against enumeration of all paths for small score tables; every recorded call is judged by TLC: range, "
        "constancy per step, tempi, untouched outputs for short input, and that the reported lags score as much as the best path through the per-step scores (computed from the arguments by definition).")

def run(ctx):
    from vp import build
    ctx.mc("PathImpl.tla", ctx.pick("PathImpl_quick.cfg", "PathImpl_thorough.cfg"), min_states=1000, timeout=2500, xmx="8g")
    exe = build("tempo2", ["tempo2.cpp"], "san")
    ctx.trace(exe, ["--mode", "period"], "BeatTrace.tla", "Trace.cfg", observed=["Period.bp", "Period.tempi"], need=["Period"], timeout=ctx.pick(250, 2500))
    ctx.assumptions = ["the beat period vector has the detection function's length", "the tempo hint lies between 40 and 300 bpm"]
