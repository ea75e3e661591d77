TECHNIQUE = "TLA+ specification of the segmenter's life cycle, of block features as means over half-overlapping frames, and of the chain of stages to segment types + TLC model checking of the life cycle + TLC validation of recorded histories"
NOTE = ("Histories of initialisation for various rates, extraction, clearing, given features and segmentation of the real segmenter are judged by TLC: frames per block, the mean feature, the internal rate, what is held after every step; "
        "and segmentations must be what the specified chain of stages, run one after the other, gives. Frames come from extractors of the harness's own (their results are K02's and F02's concern). ASan/UBSan build.")

def run(ctx):
    from vp import build
    ctx.mc("FeatureImpl.tla", "FeatureImpl_thorough.cfg" if ctx.thorough else "FeatureImpl_quick.cfg", min_states=100, timeout=ctx.pick(200, 1500))
    exe = build("features", ["features.cpp"], "san", wraps=["time"])
    ctx.trace(exe, [], "FeatureTrace.tla", "Trace.cfg", observed=["Extract.held", "Outcome.segs", "Initialise.win"],
              need=["Made", "Initialise", "Extract", "Clear", "Set", "Segment", "TooSoon", "Begin", "Stage", "Outcome"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["blocks are at least getWindowsize() samples (exactly that many when the segmenter decimates), as documented", "segmentations that change under perturbations of 1e-9 of the features are not compared",
                       "features equal to 1/10000 count as equal"]
