TECHNIQUE = "TLA+: zero-phase filtering specified over exact integers (DspOps.FiltFiltOut) + TLC validation of recorded calls and call histories"
NOTE = ("Every recorded FiltFilt call on integer data (orders 0-9, lengths from 0 through several times the extension, repeated calls on one object) is recomputed by TLC; "
        "real-valued calls must repeat bit for bit whatever was processed before. Underlying Filter buffer design checked exhaustively.")

def run(ctx):
    from vp import build
    ctx.mc("FilterImpl.tla", "FilterImpl_quick.cfg", min_states=1000)
    exe = build("filter", ["filter.cpp"], "san")
    ctx.trace(exe, ["--mode", "filtfilt"], "FilterTrace.tla", "Trace.cfg", observed=["FiltFilt.out", "Again.out"],
              need=["NewFF", "FiltFilt", "Ref", "Again"], timeout=ctx.pick(200, 2000))
    ctx.assumptions = ["input and output buffers are distinct (restrict-qualified in the interface)"]
