TECHNIQUE = "TLA+ model of the spectrum and cosine-transform packing over a prime field, model checked with TLC + TLC validation of recorded transforms against the defining sums (fixed-point trigonometry in TLA+)"
NOTE = ("TLC exhausts histories of forward and inverse cosine transforms on all basis vectors of sizes up to 6 (thorough 12) with the scratch arrays that survive between calls, exactly, over a prime field. "
        "Recorded transforms: every coefficient of sizes 1-40 (complex), even 2-40 (real) and 1-14 (DCT, unitary too) against the defining sums computed by TLC; sizes to 4410 (primes included) by impulses, tones, "
        "round trips at 1e-8, symmetry and agreement; repeated arguments on used, fresh and interleaved objects. Buffers exact under ASan.")

def run(ctx):
    from vp import build
    ctx.mc("TransformImpl.tla", "TransformImpl_quick.cfg" if not ctx.thorough else "TransformImpl_thorough.cfg", min_states=100, timeout=ctx.pick(300, 1500))
    exe = build("transform", ["transform.cpp"], "san")
    ctx.trace(exe, [], "TransformTrace.tla", "Trace.cfg", observed=["Complex.ro", "Complex.io", "Real.ro", "RealInv.out", "Magnitude.mag", "Dct.out", "Impulses.ro", "Impulses.io", "Tone.bins", "RoundTrip.y", "Symmetric.im", "Agree.y"],
              need=["Complex", "Real", "RealInv", "Magnitude", "Dct", "Impulses", "Tone", "RoundTrip", "Symmetric", "Agree", "Result", "Refused"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["defining sums to 1e-4 of the sum of magnitudes; round trips and agreement to 1e-8", "DCT of four times the size uses the Fourier transform whose sums are checked separately"]
