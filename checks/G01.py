TECHNIQUE = "TLA+ specification of segmentation (tiling, run lengths, histograms) + TLC validation of recorded object histories"
NOTE = ("Recorded histories of the real segmenter (constant-Q, chroma, MFCC and given features; silent, constant, short and ordinary material; clears and re-use) are judged by TLC for exact tiling; "
        "run-length conversion, state histograms, octave folding and envelope normalisation are recomputed exactly. Clustering quality itself is not judged. ASan/UBSan build.")

def run(ctx):
    from vp import build
    exe = build("segment", ["segment.cpp"], "san", wraps=["time"])
    ctx.trace(exe, [], "SegmentTrace.tla", "Trace.cfg", observed=["Histograms.h", "Fold.chroma", "Mpeg7.out", "Mpeg7.env", "Cluster.c", "New.hop", "Segments.segs", "Printed.segs"],
              need=["Histograms", "Fold", "Mpeg7", "Cluster", "New", "Add", "Set", "Clear", "RunLength", "Segment", "Segments", "Printed"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["the wall clock that seeds the clustering is fixed per scenario", "extractFeatures is given blocks of getWindowsize() samples as documented"]
