TECHNIQUE = "TLA+: exhaustive TLC check of path decoding and forward-backward against all paths + TLC validation of recorded calls against the definitions"
NOTE = ("Decoding and the forward-backward recursion are checked exhaustively on small integer models against enumeration of all state paths. Recorded calls of the real code: TLC recomputes the best path score "
        "(zero probabilities included), Gaussian densities, posteriors by enumeration (by the recursion, up to 140 frames), re-estimation formulas, and requires distributions and non-decreasing likelihood over training.")

def run(ctx):
    from vp import build
    ctx.mc("PathImpl.tla", ctx.pick("PathImpl_quick.cfg", "PathImpl_thorough.cfg"), min_states=1000, timeout=2500, xmx="8g")
    ctx.mc("HmmImpl.tla", ctx.pick("HmmImpl_quick.cfg", "HmmImpl_thorough.cfg"), min_states=1000, timeout=2500, xmx="8g")
    exe = build("hmm", ["hmm.cpp"], "san", wraps=["time"])
    ctx.trace(exe, [], "HmmTrace.tla", "Trace.cfg", observed=["Gauss.lg", "Gauss.icov", "FB.gamma", "FB.xi", "FB.loglik", "LongFB.gamma", "LongFB.xi", "LongFB.loglik", "Reest.p", "Reest.a", "Reest.mu", "Reest.cov", "InitModel.p", "Train.p"],
              need=["Model", "Viterbi", "Gauss", "FB", "LongFB", "Reest", "InitModel", "Train"], timeout=ctx.pick(300, 2800))
    ctx.assumptions = ["training data is not degenerate: states keep some occupation probability and the covariance stays regular", "the wall clock that seeds hmm_init is fixed per scenario"]
