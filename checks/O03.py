TECHNIQUE = "TLA+: exhaustive TLC check of the unwrapping recurrence + TLC validation of recorded phase vocoder frames in exact angular units"
NOTE = ("Unwrapping recurrence checked for every short phase sequence; real phase vocoders process frame sequences with phases in sixteenths of a turn (all hops, sizes, resets, two objects): magnitude, wrapped phase, "
        "congruence modulo a turn and deviation within half a turn at every bin; cosines in the time domain must show their magnitude and phase; both entries must agree; runs of thousands of frames and frames of up to 8192 samples; levels from 2^-400 to 2^300.")

def run(ctx):
    from vp import build
    ctx.mc("OnsetImpl.tla", ctx.pick("OnsetImpl_quick.cfg", "OnsetImpl_thorough.cfg"), min_states=3000, timeout=2500, xmx="8g")
    exe = build("onset", ["onset.cpp"], "san")
    ctx.trace(exe, ["--mode", "pv"], "PhaseVocTrace.tla", "Trace.cfg", observed=["Frame.u", "Frame.theta", "Frame.mag", "Tone.u", "Agree.td"], need=["New", "Frame", "Tone", "Reset", "BigFrame", "Agree"], timeout=ctx.pick(250, 2500))
