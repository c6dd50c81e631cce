"""P11: the backward transform mirrors the forward transform."""
from planobj import *
TITLE = "The backward transform mirrors the forward transform"
TECHNIQUE = "value-flow analysis of constructors and transform calls: the stages handed to the pipelines are traced back to the plan"
LEVEL = "proof"

def one(ctx, p, it):
    c, sh, ms, ref = it
    for f in ms:
        b = built(p, c, sh=sh); m = b.m
        q = [x for x in run_method(b, ref, 0).effs if x.e.kind == "pipeline"]
        fx = list(q[0].e.d["args"][8].el) if len(q) == 1 and isinstance(q[0].e.d["args"][8], VElems) else None
        r = run_method(b, f, 0)
        fwd = f["n"] == "forward"
        name = "%s, redistributions %s, %s(%s)" % (short(p, c) + " constructor line %d" % c["line"], "".join(map(str, sh)), f["n"], ", ".join(r.ptypes))
        loc = (f["file"], f["line"])
        pipes = [x for x in r.effs if x.e.kind == "pipeline"]
        if not ctx.check(len(pipes) == 1 and not pipes[0].loops, name + ": one pipeline run", "%d runs" % len(pipes), loc): continue
        e = pipes[0].e; a = e.d["args"]
        els = a[7].el if isinstance(a[7], VElems) else [None] * 4
        want = [("in_shape", k, "out_shape", k) for k in range(4)] if fwd else [("out_shape", 3 - k, "in_shape", 3 - k) for k in range(4)]
        ok = True; got = []
        for k in range(4):
            x = els[k]
            here = sh[k] if fwd else sh[3 - k]
            if not here:
                ok &= x is NULL; got.append("none" if x is NULL else txt(x)); continue
            if not (isinstance(x, Ptr) and x.base.op == "reshaper"): ok = False; got.append(txt(x)); continue
            v = b.resh[x.base.args[0]]
            s, d = shape_index(v[1], True), shape_index(v[2], True)
            got.append("%s->%s" % (s, d))
            ok &= s == want[k][:2] and d == want[k][2:]
            ok &= txt(v[3]) == "&comm"
        ctx.check(ok, name + ": redistributions", "uses %s, expected %s" % (got, want), e.loc)
        xs = a[8].el if isinstance(a[8], VElems) else [None] * 3
        ctx.check(fx is not None and list(xs) == (fx if fwd else fx[::-1]), name + ": local transforms", "uses %s, forward list is %s" % (txt(a[8]), txt(fx)), e.loc)
        ctx.check(a[9] is P(0 if fwd else 1), name + ": direction", txt(a[9]), e.loc)
        ctx.absorb(m)
def run(ctx):
    ctx.rules = ["for every constructor, pattern of present redistributions and transform call: forward runs in_shape[k]->out_shape[k], k=0..3, backward runs the inverse pairs in reverse order; the same local transforms are used, in reverse order, with the direction of the call"]
    ctx.assumptions = ["a redistribution object does what its two layouts say (P01-P03)"]
    p = program("int")
    its = []
    cs = [c for c in ctors(p)]
    if len(cs) < 40: raise AnchorMissing("constructors: %d" % len(cs))
    ms = methods(p)
    for c in cs:
        mine = [f for f in ms if f["cls"] == c["cls"]]
        if not mine: raise AnchorMissing("transform calls of " + c["q"])
        some = [f for f in mine if sum(p.types[x["t"]]["k"] == "ptr" for x in f["params"]) == 3 and p.types[f["params"][0]["t"]]["k"] == "ptr"]
        one_each = {}
        for f in some: one_each.setdefault(f["n"], f)
        pats = list(itertools.product((0, 1), repeat=4))
        if delegates(c) and ctx.tier == "quick": pats = [(1, 1, 1, 1)]
        for sh in pats:
            use = list(one_each.values())
            if sh == (1, 1, 1, 1) and not delegates(c): use = mine
            its.append((c, sh, use, one_each["forward"]))
    ctx.parallel(its, lambda ctx, it: one(ctx, p, it))
