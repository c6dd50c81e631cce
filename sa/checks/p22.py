"""P22: container calls check sizes and return correctly sized results; pointer calls hand over the caller's arrays."""
from planobj import *
TITLE = "Container calls check sizes and return correctly sized results"
TECHNIQUE = "value-flow analysis of every transform overload on a constructed plan: guards of the size checks, extents of allocated results and work buffers"
LEVEL = "proof"

def one(ctx, p, it):
    c, ms = it
    for f in ms:
        fwd = f["n"] == "forward"
        container = p.types[f["params"][0]["t"]]["k"] == "ref"
        loc = (f["file"], f["line"])
        for case in (("enough", "short") if container else ("",)):
            b = built(p, c); m = b.m
            cnt = {}
            for s, k in (("in_shape", 0), ("out_shape", 3)):
                v = ONE
                for t in sizes(s, k): v = v * P(t)
                cnt[s] = v
            need, give = (cnt["in_shape"], cnt["out_shape"]) if fwd else (cnt["out_shape"], cnt["in_shape"])
            if container:
                n = P(T("size", T("sym", f["params"][0]["n"])))
                m.facts += [n - need] if case == "enough" else [need - n - 1]
            r = run_method(b, f, 0)
            name = "%s %s(%s)" % (short(p, c), f["n"], ", ".join(r.ptypes))
            if case: name += " with %s entries" % ("enough" if case == "enough" else "too few")
            effs = [x for x in r.effs if x.g is not FALSE]
            pipes = [x for x in effs if x.e.kind == "pipeline"]
            throws = [x for x in effs if x.e.kind == "throw"]
            ctx.absorb(m)
            if case == "short":
                ctx.check(not pipes and any(x.g is TRUE for x in throws), name + ": rejected before any data is touched", "pipeline runs under %s" % (txt(pipes[0].g) if pipes else "no condition, and no error is raised"), pipes[0].e.loc if pipes else loc)
                if throws: ctx.check(all("invalid_argument" in str(x.e.d.get("type")) for x in throws), name + ": reported as std::invalid_argument", str(throws[0].e.d.get("type")), throws[0].e.loc)
                continue
            ctx.check(not throws, name + ": accepted", "an error is raised under %s" % (txt(throws[0].g) if throws else ""), throws[0].e.loc if throws else loc)
            if not ctx.check(len(pipes) == 1 and pipes[0].g is TRUE and not pipes[0].loops, name + ": the transform runs once", repr([x.g for x in pipes]), loc): continue
            e = pipes[0].e; a = e.d["args"]
            ctx.check(a[1] is r.batch, name + ": batch size", "%s instead of %s" % (txt(a[1]), txt(r.batch)), e.loc)
            ptr = [i for i, x in enumerate(f["params"]) if p.types[x["t"]]["k"] == "ptr"]
            def at0(x): return isinstance(x, Ptr) and not x.path and x.off is ZERO
            if container:
                ctx.check(e.d["mem"][0] is T("sym", f["params"][0]["n"]) and at0(a[2]), name + ": reads the given container", txt(a[2]), e.loc)
                ctx.check(at0(a[3]) and e.d["bytes"][1] is give * e.d["es"][1], name + ": the result has the size of the output box", "allocates %s bytes for %s" % (txt(e.d["bytes"][1]), txt(give * e.d["es"][1])), e.loc)
                ret = r.ret
                ret = m.read(ret) if isinstance(ret, (LV, MLV)) else ret
                mem = e.d["mem"][1]
                for x in effs:
                    if x.e.kind == "copybuf" and x.e.d["src"] is mem and x.g is TRUE and x.e.d["size"] is give * e.d["es"][1]: mem = x.e.d["dst"]
                ctx.check(isinstance(ret, VFlat) and ret.size is give and ret.mem in (mem, e.d["mem"][1]), name + ": returns the transformed container", txt(ret), loc)
            else:
                ctx.check(at0(a[2]) and a[2].base is r.args[ptr[0]].base and at0(a[3]) and a[3].base is r.args[ptr[1]].base, name + ": works on the given arrays", "%s -> %s" % (txt(a[2]), txt(a[3])), e.loc)
            ws = [fn for fn in fns(p, normq(c["q"]).rsplit("::", 1)[0] + "::size_workspace") if fn["cls"] == c["cls"]]
            if len(ws) != 1: raise AnchorMissing("size_workspace")
            adv = m.inline(ws[0], b.this, [])
            if len(ptr) == 3:
                ctx.check(at0(a[4]) and a[4].base is r.args[ptr[2]].base, name + ": uses the given work space", txt(a[4]), e.loc)
            else:
                wb = e.d["bytes"][2]
                ok = at0(a[4]) and wb is not None and nonneg(wb - r.batch * adv * e.d["es"][2])
                ctx.check(ok, name + ": its own work space has the advertised size times the batch", "allocates %s bytes, needs %s" % (txt(wb), txt(r.batch * adv * e.d["es"][2])), e.loc)
def run(ctx):
    ctx.rules = ["container overloads: too few entries -> std::invalid_argument and no pipeline run; otherwise one pipeline run from the given container into a fresh one of exactly the output-box size, which is returned; pointer overloads: one pipeline run on exactly the given arrays; internal work space >= batch * size_workspace()"]
    ctx.assumptions = ["boxes of the calling rank are non-empty (the empty case has nothing to check)"]
    p = program("int")
    its = []
    for cls in sorted({f["cls"] for f in methods(p)}):
        c = [c for c in ctors(p) if c["cls"] == cls and not delegates(c)][0]
        ms = [f for f in methods(p) if f["cls"] == cls]
        for i in range(0, len(ms), 6): its.append((c, ms[i:i + 6]))
    if len(its) < 40: raise AnchorMissing("transform overloads: %d groups" % len(its))
    ctx.parallel(its, lambda ctx, it: one(ctx, p, it))
