TECHNIQUE = "TLA+: exhaustive TLC check that block-wise cascaded decimation equals whole-stream filtering + TLC validation of recorded block streams"
NOTE = ("State carry-over design checked exhaustively for small integer filters, one and two stages, all block divisions up to 8 samples and resets; real decimators of every supported factor "
        "run many block lengths, both precisions, in place, with resets, each block compared with the one-block run; DC gain, passband and stopband levels. Filter coefficients are judged by their response only.")

def run(ctx):
    from vp import build
    ctx.mc("DecimatorImpl.tla", ctx.pick("DecimatorImpl_quick.cfg", "DecimatorImpl_thorough.cfg"), min_states=3000, timeout=2500, xmx="8g")
    exe = build("decim", ["decim.cpp"], "san")
    ctx.trace(exe, [], "DecimatorTrace.tla", "Trace.cfg", observed=["Block.out", "Steady.out", "Tone.gain", "New.factor", "Refused.written"],
              need=["Block", "Reset", "Steady", "Tone", "Copy", "Refused", "Highest"], timeout=ctx.pick(250, 2500))
