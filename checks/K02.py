TECHNIQUE = "TLA+ definition of the constant-Q transform and octave folding (fixed-point trigonometry in TLA+) + TLC validation of recorded frames"
NOTE = ("For small configurations TLC computes every constant-Q coefficient and chroma bin from the frame by the defining sum; for realistic ones (1-60 bins per octave, 1-8 octaves, all normalisations, "
        "interleaved objects, both entry points) it judges folding, normalisation, frame-locality, frame size, linearity, the effect of the threshold, tone placement and agreement of both process forms. Buffers under ASan.")

def run(ctx):
    from vp import build
    exe = build("chroma", ["chroma.cpp"], "san")
    ctx.trace(exe, [], "ChromaTrace.tla", "Trace.cfg", observed=["CQ.re", "CQ.re2", "ChromaNew.frame", "Direct.chroma", "Chroma.chroma", "Linear.Z", "Outside.re"],
              need=["CQNew", "CQ", "ChromaNew", "Direct", "Chroma", "Tone", "Linear", "Threshold", "Outside"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["windowing and FFT in front of the separately constructed ConstantQ are those of the library (F01, F03)", "fixed-point tolerance about 0.2 % of full scale"]
