"""P08: the execution pipelines run every planned stage exactly once, in order, on the whole batch."""
from pipeline import *
TITLE = "Transforms run every planned stage exactly once, in order, for all batch entries"
TECHNIQUE = "value-flow analysis of the pipelines with data-location tracking over all stage patterns"
LEVEL = "proof"

def items(p, tier):
    inst = instances(p)
    out = []
    for (kind, ty), f in sorted(inst.items(), key=lambda x: x[0]):
        if tier == "quick" and "double" not in ty: continue
        if kind in ("c2c", "r2r"): out += [(f, sc, False) for sc in scenarios(kind, (False, True))]
        else:
            d = (0,) if kind == "r2c" else (1,)
            out += [(f, sc, False) for sc in scenarios(kind, (False,), d)] + [(f, sc, True) for sc in scenarios(kind, (False,), d, True)]
    return out
def one(ctx, p, it):
    f, sc, r2cplan = it
    r = analyse(p, f, sc, r2cplan)
    name = repr(sc) + (" (r2c plan)" if r2cplan else "")
    bad = [0]
    def report(rule, ok, detail, loc):
        if not ok: bad[0] = 1; ctx.check(False, name + ": " + rule, detail, loc)
        return ok
    simulate(r, report)
    if not bad[0]: ctx.check(True, name + ": all stages once, in order, on the whole batch")
    ctx.absorb(r.m)
def run(ctx):
    ctx.rules = ["follow the data from the input through every redistribution, copy and local transform: each takes the current location, the whole batch, and leaves the result at the next one; all present stages run once in order; absent stages are never used; the output array holds the result"]
    ctx.assumptions = ["a redistribution absent on a rank leaves that rank's data unchanged (P02), boxes of consecutive stages agree (P10)"]
    p = program("int")
    its = items(p, ctx.tier)
    kinds = {repr(sc).split()[0] for _, sc, _ in its}
    if kinds != {"c2c", "r2r", "r2c", "c2r"}: raise AnchorMissing("pipelines found: %s" % sorted(kinds))
    ctx.parallel(its, lambda ctx, it: one(ctx, p, it))
