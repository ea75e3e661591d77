TECHNIQUE = "TLA+ specification of windowed beat placement + TLC validation of recorded tracking calls"
NOTE = ("Every recorded TempoTrack call is judged by TLC: one tempo per window, beats strictly increasing, equally spaced within each window, phase recomputed as the best aligned one, "
        "spacing agreeing with the reported tempo, and repeated calls on one object agreeing with a fresh object; lengths from zero, silence, slow and fast pulses, address sanitised.")

def run(ctx):
    from vp import build
    exe = build("tempotrack", ["tempotrack.cpp"], "san")
    ctx.trace(exe, [], "TempoTrackTrace.tla", "Trace.cfg", observed=["Track.beats", "Track.t100"], need=["Track"], timeout=ctx.pick(250, 2500))
    ctx.assumptions = ["the analysis window is four lag lengths long"]
