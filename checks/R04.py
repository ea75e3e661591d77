TECHNIQUE = "TLA+ specification of the audio queue and of the down-beat choice + TLC validation of recorded histories"
NOTE = ("Audio buffering is a queue specified in TLA+ (sample identity, all decimation factors, growth, resets); each findDownBeats call is judged by TLC from the reported spectral differences "
        "(arithmetic progression at the phase of greatest mean difference), and the differences themselves must be a symmetric function of the interval contents, zero between equal ones.")

def run(ctx):
    from vp import build
    exe = build("downbeat", ["downbeat.cpp"], "san")
    ctx.trace(exe, [], "DownBeatTrace.tla", "Trace.cfg", observed=["Find.out", "Buffered.ids", "Find.sd"], need=["Push", "Buffered", "ResetBuffer", "Find"], timeout=ctx.pick(250, 2500))
    ctx.assumptions = ["the decimation factor is a power of two up to 64 dividing the increment"]
