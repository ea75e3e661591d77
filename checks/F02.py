TECHNIQUE = "TLA+ definition of the mel filter bank and cepstrum (fixed-point arithmetic in TLA+, band layout checked by TLC assumptions) + TLC validation of recorded frames"
NOTE = ("TLC computes every coefficient from the spectrum by the definition, for dense spectra of sizes 40-128 and sparse ones (a single bin included, which shows each band's shape) of realistic sizes 512-8192 at 11-192 kHz, "
        "with and without the zeroth coefficient, any number of coefficients, log powers 1 to 3; time-domain against frequency-domain entry, loudness, silence, repeated frames on interleaved objects. Buffers exact under ASan.")

def run(ctx):
    from vp import build
    exe = build("mfcc", ["mfcc.cpp"], "san")
    ctx.trace(exe, [], "MfccTrace.tla", "Trace.cfg", observed=["New.length", "Cepstrum.ceps", "Louder.b", "Frame.ceps"], need=["New", "Cepstrum", "Louder", "Frame"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["coefficients to about 0.01 (fixed-point logarithms)", "window and transform in front of the frequency-domain entry are those of F01 and F03", "log power other than 1 and 2 with band sums below one is excluded (not a number by design)"]
