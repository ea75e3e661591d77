TECHNIQUE = "TLA+: exhaustive TLC check of the resampler's phase/buffer machine (alignment, completeness, counts) + TLC validation of recorded streams"
NOTE = ("Phase/drop/prefill bookkeeping checked for all coprime spacings up to 5 (9 thorough), several filter lengths and all chunkings of up to 12 (24) samples; "
        "real streams over many rate pairs and chunkings: per-call and total counts, equality with one long call, impulse responses centred and consistent over all phases, DC and ramp accuracy, tones inside and above the band, long streams, and late signals repeating early ones.")

def run(ctx):
    from vp import build
    ctx.mc("ResamplerImpl.tla", ctx.pick("ResamplerImpl_quick.cfg", "ResamplerImpl_thorough.cfg"), min_states=3000, timeout=2500)
    exe = build("resample", ["resample.cpp"], "san")
    ctx.trace(exe, ["--mode", "stream"], "ResamplerTrace.tla", "Trace.cfg",
              observed=["Process.got", "Process.out", "Impulse.out", "Const.out", "Ramp.out", "ByValue.out", "Late.out", "Tone.out"],
              need=["Process", "Impulse", "Const", "Ramp", "ByValue", "Late", "Tone"], timeout=ctx.pick(250, 2500))
    ctx.assumptions = ["accuracy bounds: 3 * 10^(-snr/20) for steady input, 0.025 input samples for time alignment"]
