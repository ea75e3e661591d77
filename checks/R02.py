TECHNIQUE = "TLA+: exhaustive TLC check of the beat-placing dynamic programme against all paths + TLC validation of recorded beat sequences"
NOTE = ("The recursion and backtrace are checked exhaustively against enumeration of every beat path for small detection functions; every recorded call (random lengths from zero, periods, alpha and "
        "tightness) is judged by TLC, which recomputes the cumulative score and requires each reported beat to be a best predecessor.")

def run(ctx):
    from vp import build
    ctx.mc("BeatPathImpl.tla", ctx.pick("BeatPathImpl_quick.cfg", "BeatPathImpl_thorough.cfg"), min_states=1000, timeout=2500, xmx="8g")
    exe = build("tempo2", ["tempo2.cpp"], "san")
    ctx.trace(exe, ["--mode", "beats"], "BeatTrace.tla", "Trace.cfg", observed=["Beats.out"], need=["Beats"], timeout=ctx.pick(250, 2500))
    ctx.assumptions = ["every detection function sample has a beat period; periods are whole", "the detection function has no negative values"]
