TECHNIQUE = "TLA+ catalogue of the wavelets with the two-channel reconstruction conditions in fixed point + TLC validation of every table"
NOTE = ("TLC checks for each of the 43 types the perfect reconstruction condition (all even shifts of low-pass against the alternating high-pass), sums, lengths, alternating flip of the orthogonal families, vanishing moments of both filters, "
        "extremal phase, near symmetry and scaling moments where the family has them, exact symmetry of biorthogonal tables, the name, and that earlier vector contents are replaced.")

def run(ctx):
    from vp import build
    exe = build("wavelet", ["wavelet.cpp"], "san")
    ctx.trace(exe, [], "WaveletTrace.tla", "Trace.cfg", observed=["Table.l", "Table.h", "Table.name", "Unknown.name"], need=["Table", "Unknown"], timeout=ctx.pick(300, 900))
    ctx.assumptions = ["coefficients to 1e-8; reconstruction to 1e-7 (4e-7 above length 50, 1e-5 for the truncated Meyer filter, 3e-5 for Daubechies 40, whose table is no more precise)"]
