TECHNIQUE = "TLA+: detection function conditioning specified over exact integers (normalise, zero-phase filter, clipped moving median) + TLC validation of recorded calls"
NOTE = ("Every recorded DFProcess call (integer functions and filter coefficients, orders 0-3, windows 0-9 either side, lengths from 1 including shorter than the window, repeated calls, two objects) "
        "is recomputed by TLC; exactly sized buffers under AddressSanitizer. The underlying filter design is checked exhaustively in FilterImpl.")

def run(ctx):
    from vp import build
    ctx.mc("FilterImpl.tla", "FilterImpl_quick.cfg", min_states=1000)
    exe = build("dfproc", ["dfproc.cpp"], "san")
    ctx.trace(exe, ["--mode", "df"], "DFProcTrace.tla", "Trace.cfg", observed=["Process.out"], need=["New", "Process"], timeout=ctx.pick(250, 2500))
    ctx.assumptions = ["the detection function is not silent (its norm is non-zero)"]
