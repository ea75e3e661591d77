TECHNIQUE = "TLA+ definition of equal temperament in fixed point + TLC validation of recorded conversions both ways"
NOTE = ("TLC computes every frequency to 3e-6 and judges order, octaves, the round trip to 0.008 cents and the semitone the cents lie in, for all pitches 0-127, offsets from -100 to 300 cents with many at the semitone boundary, "
        "nine concert pitches, default arguments, and arbitrary frequencies over ten octaves.")

def run(ctx):
    from vp import build
    exe = build("pitch", ["pitch.cpp"], "san")
    ctx.trace(exe, [], "PitchTrace.tla", "Trace.cfg", observed=["Frequency.man", "Octave.exb", "Pitch.rp", "Pitch.rc", "Named.rc"], need=["Frequency", "Octave", "Pitch", "Named"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["single precision: results to 3e-6 (0.008 cents); at the semitone boundary either neighbour may be named"]
