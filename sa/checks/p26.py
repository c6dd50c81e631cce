"""P26: fused stages only where the layout allows them; every direction is transformed exactly once."""
from planobj import *
TITLE = "Fused stages are used only where the stage layout allows them"
TECHNIQUE = "value-flow analysis of the constructors over all patterns of present redistributions; reachability of unsupported-transform errors in the executor constructors"
LEVEL = "proof"

def unsupported(p, fn):
    """does this executor factory raise an error for every non-empty box?"""
    m = machine(p, {"heffte::box3d::empty": lambda m, f, this, a, n: FALSE})
    call(m, fn)
    return [x.e for x in flatten(m.rec) if x.e.kind == "throw" and x.g is TRUE], m
_uns = {}
def one(ctx, p, it):
    c, sh = it
    b = built(p, c, sh=sh); m = b.m
    ref = [f for f in methods(p, ("forward",)) if f["cls"] == c["cls"] and sum(p.types[x["t"]]["k"] == "ptr" for x in f["params"]) == 3][0]
    q = [x for x in run_method(b, ref, 0).effs if x.e.kind == "pipeline"]
    name = "%s, redistributions %s" % (short(p, c) + " constructor line %d" % c["line"], "".join(map(str, sh)))
    loc = (c["file"], c["line"])
    if not ctx.check(len(q) == 1 and isinstance(q[0].e.d["args"][8], VElems), name + ": stages known", "", loc): return
    r2c = "fft3d_r2c" in c["q"]
    done = []
    made = [x.e for x in b.effs if x.e.kind == "make_executor"]
    order = []
    for slot, x in enumerate(q[0].e.d["args"][8].el):
        if x is NULL: continue
        if not (isinstance(x, Ptr) and x.base.op == "executor"):
            ctx.check(False, name + ": stages known", txt(x), loc); return
        i = x.base.args[0]; fn, v = b.exec[i]
        el = made[i].loc
        dirs = [dir_index(y) for y in v[2:]]
        st = dirs if dirs else [0, 1, 2]
        bi = box_index(v[1])
        if not ctx.check(None not in st and bi is not None, name + ": local transform %d is planned for a stage layout and direction" % slot, txt(v), el): return
        st_sorted = sorted(st)
        # the stages of a fused transform are consecutive and no redistribution separates them
        ctx.check(st_sorted == list(range(st_sorted[0], st_sorted[-1] + 1)), name + ": local transform %d fuses consecutive stages" % slot, str(st), el)
        between = [k for k in range(st_sorted[0] + 1, st_sorted[-1] + 1) if sh[k]]
        ctx.check(not between, name + ": no redistribution separates the stages fused in local transform %d" % slot, "redistribution(s) %s" % between, el)
        # its box is the layout of one of its stages (they coincide when no redistribution separates them)
        lay = bi[1] if bi[0] == "out_shape" else bi[1] - 1
        ctx.check(lay in st and (bi[0] == "out_shape" or not r2c), name + ": local transform %d works on the layout of its stage" % slot, "stages %s, box %s" % (st, bi), el)
        # the pipelines run slot k after redistribution k and before redistribution k+1
        ctx.check(slot in st, name + ": local transform %d runs at its stage" % slot, "stages %s" % st, el)
        order += st
        ctx.check((fn["n"] == "make_executor_r2c") == (r2c and 0 in st), name + ": the real-to-complex transform is the first stage", "%s at stages %s" % (fn["n"], st), el)
        if fn["id"] not in _uns: _uns[fn["id"]] = unsupported(p, fn)
        u, um = _uns[fn["id"]]
        ctx.check(not u, name + ": the back end provides local transform %d" % slot, "%d-direction transform raises %s" % (len(st), u[0].d.get("type") if u else ""), el)
        ctx.absorb(um)
    ctx.check(sorted(order) == [0, 1, 2], name + ": every direction is transformed once", "stages %s" % order, loc)
    ctx.absorb(m)
def run(ctx):
    ctx.rules = ["for every constructor and pattern of present redistributions: the local transforms cover the planned directions 0,1,2 exactly once; a transform over several directions joins consecutive stages with no redistribution between them, uses their layout and sits at one of their positions; no transform is requested that the back end rejects"]
    ctx.assumptions = ["the position of a fused transform among its stages is immaterial because no redistribution separates them (P08)"]
    p = program("int")
    its = []
    cs = ctors(p)
    if len(cs) < 40: raise AnchorMissing("constructors: %d" % len(cs))
    for c in cs:
        if delegates(c) and ctx.tier == "quick" and len(c["params"]) > 6: continue
        for sh in itertools.product((0, 1), repeat=4): its.append((c, sh))
    ctx.parallel(its, lambda ctx, it: one(ctx, p, it))
