TECHNIQUE = "TLA+: exhaustive TLC check of the resampler's counting and alignment + TLC validation of recorded one-shot resamplings"
NOTE = ("Real one-shot calls over many rate pairs and lengths: exact length, repeatability, identity at equal rates, steady and ramp inputs reproduced, impulses centred on their own time. "
        "The counting argument (padding by latency always yields enough output) follows from the exhaustively checked Counts invariant.")

def run(ctx):
    from vp import build
    ctx.mc("ResamplerImpl.tla", "ResamplerImpl_quick.cfg", min_states=3000)
    exe = build("resample", ["resample.cpp"], "san")
    ctx.trace(exe, ["--mode", "oneshot"], "ResamplerTrace.tla", "Trace.cfg",
              observed=["OneShot.len", "Centred.out", "Ramp.out", "Identity.out"],
              need=["OneShot", "Ramp", "Const", "Centred", "Identity", "ByValue"], timeout=ctx.pick(250, 2500))
