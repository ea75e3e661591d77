from vp import MachineryError
import vp

TECHNIQUE = "TLA+ specification of results as functions of settings and calls since reset, extended to bad values + TLC model checking of how bad values spread + TLC validation of recorded histories (optimised and sanitised builds)"
NOTE = ("Objects of 31 classes are given inputs with values that are not numbers, infinite, huge, minute or negative zero between ordinary calls; TLC rejects any history in which a process faults or hangs, an input is modified, "
        "or an ordinary call - at once where the class keeps nothing, after a reset otherwise - returns something other than in a pristine process.")

def run(ctx):
    from vp import build
    ctx.mc("HostileImpl.tla", "HostileImpl_thorough.cfg" if ctx.thorough else "HostileImpl_quick.cfg", min_states=500, timeout=ctx.pick(200, 1500))
    for cfg in ("HostileImpl_unpredicated_scratch.cfg", "HostileImpl_unpredicated_reset.cfg"):
        r = vp.tlc("HostileImpl.tla", cfg)
        if r["ok"] or "violated" not in r["out"]:
            raise MachineryError(f"{cfg} was accepted")
    exited = set()
    for variant in ("rel", "san"):
        exe = build("instances", ["instances.cpp"], variant, wraps=["time", "exit"])
        res = ctx.trace(exe, ["--mode", "hostile"], "InstanceTrace.tla", "Trace.cfg", observed=["Again.out"], need=["New", "Call", "Again", "Reset", "Process"], timeout=ctx.pick(400, 2800))
        for r in res:
            exited |= {line.split('"status":')[1].split("}")[0] for line in open(r[0]) if '"e":"Exited"' in line}
    if "1" in exited:
        ctx.known.append("pca_project (maths/pca/pca.c: erhand) ends the process when the data contains values that are not numbers or overflow")
    ctx.assumptions = ["results equal to 1e-9 of their size count as the same", "what a call returns for bad values themselves is not judged"]
