TECHNIQUE = "TLA+: exhaustive TLC check of the filter's history-buffer design against the difference equation + TLC validation of recorded integer and real-valued streams"
NOTE = ("Buffer design exhaustively checked for small filters, inputs and resets; real Filter objects run on integer streams (orders 0-30, random chunkings, long ones beyond every buffer, resets, "
        "several objects), every output compared by TLC with the difference equation; real-valued streams compared bit for bit across chunkings.")

def run(ctx):
    from vp import build
    ctx.mc("FilterImpl.tla", ctx.pick("FilterImpl_quick.cfg", "FilterImpl_thorough.cfg"), min_states=1000, timeout=1500)
    exe = build("filter", ["filter.cpp"], "san")
    ctx.trace(exe, ["--mode", "filter"], "FilterTrace.tla", "Trace.cfg", observed=["Process.out", "New.order", "Again.out"],
              need=["New", "Process", "Reset", "Refused", "Ref", "Again"], timeout=ctx.pick(200, 2000))
