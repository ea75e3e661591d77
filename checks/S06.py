TECHNIQUE = "TLA+: exhaustive TLC check of the framer's index arithmetic (contents, reads and writes) + TLC validation of recorded frame histories"
NOTE = ("All source lengths to 9, frames to 6, hops to 8 and 12 calls explored exhaustively; random histories of real framers (lengths around multiples of the hop, empty sources, "
        "frames requested past the end, resets, new sources, two objects) with exactly sized buffers under AddressSanitizer; runs of thousands of frames; announced lengths beyond 2^31 samples, and one such source read to its end.")

def run(ctx):
    from vp import build
    ctx.mc("FramerImpl.tla", "FramerImpl_quick.cfg", min_states=1000)
    exe = build("framer", ["framer.cpp"], "san")
    ctx.trace(exe, [], "FramerTrace.tla", "Trace.cfg", observed=["Frame.out", "SetSource.max"], need=["Configure", "SetSource", "Frame", "Reset", "Ramp", "Huge"], timeout=ctx.pick(200, 2000))
    ctx.assumptions = ["a new source is followed or preceded by resetCounters or configure"]
