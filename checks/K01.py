TECHNIQUE = "TLA+ specification of chroma averaging, profile correlation and the running median + TLC validation of recorded block histories"
NOTE = ("Every recorded GetKeyMode call (interleaved objects, averaging windows of 1-7 blocks, medians of 1-9, decimation 1-8) is judged by TLC: the 24 key strengths recomputed from the chroma of the "
        "blocks in the window and the published profiles, the raw key from the strengths' exact order, the reported key as the lower median of the raw keys in its window.")

def run(ctx):
    from vp import build
    exe = build("keymode", ["keymode.cpp"], "san")
    ctx.trace(exe, [], "KeyModeTrace.tla", "Trace.cfg", observed=["Process.key", "Process.s", "Twin.key"], need=["New", "Process", "Twin"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["chroma vectors are taken from a Chromagram on the decimated blocks (K02, S05)"]
