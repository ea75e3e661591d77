TECHNIQUE = "TLA+: exhaustive TLC check of sorted-window maintenance against the order statistic + TLC validation of recorded push histories"
NOTE = ("Window maintenance checked for sizes 1-5, four values and up to 6 (8 thorough) pushes with resets; real filters of three element types follow random histories with duplicates, infinities, NaN, "
        "changing percentiles and resets, every returned value recomputed by TLC; the static form for all shapes including inputs shorter than the window.")

def run(ctx):
    from vp import build
    ctx.mc("MedianImpl.tla", ctx.pick("MedianImpl_quick.cfg", "MedianImpl_thorough.cfg"), min_states=2000, timeout=2500, xmx="8g")
    exe = build("median", ["median.cpp"], "san")
    ctx.trace(exe, [], "MedianTrace.tla", "Trace.cfg", observed=["Get.v", "GetAt.v", "Static.out", "New.got"],
              need=["Push", "PushNaN", "Get", "GetAt", "SetPercentile", "Reset", "Static"], timeout=ctx.pick(200, 2000))
