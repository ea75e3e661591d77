TECHNIQUE = "TLA+: exhaustive TLC check that the per-bin histories implement the frame-sequence definitions + TLC validation of recorded frame sequences"
NOTE = ("All five types over every sequence of 3 (4 thorough) one-bin frames; real objects process random frame sequences whose spectra are exact (integer magnitudes, quarter-turn phases), repeated and silent frames, "
        "several interleaved objects, whitening with exact scaling and in general; every value recomputed by TLC. Frames up to 8192 samples and levels from 2^-300 to 2^300. Time-domain entry compared with the frequency-domain one on the windowed, shifted transform.")

def run(ctx):
    from vp import build
    ctx.mc("OnsetImpl.tla", ctx.pick("OnsetImpl_quick.cfg", "OnsetImpl_thorough.cfg"), min_states=3000, timeout=2500, xmx="8g")
    exe = build("onset", ["onset.cpp"], "san")
    ctx.trace(exe, ["--mode", "df"], "OnsetTrace.tla", "Trace.cfg", observed=["Frame.v", "White.mag", "Agree.td"], need=["New", "Frame", "White", "Agree"], timeout=ctx.pick(250, 2500))
    ctx.assumptions = ["whitening floor above zero"]
