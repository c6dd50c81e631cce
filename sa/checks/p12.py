"""P12: scaling by the right factor, exactly once, over all results."""
from planobj import *
TITLE = "Scaling uses the right factor, exactly once, over all results"
TECHNIQUE = "value-flow analysis of constructors and transform calls; symbolic equality of the applied factor and of the scaled range"
LEVEL = "proof"
# r2r transforms: (constant, shift) -> 1 / (constant * (n0+shift) * (n1+shift) * (n2+shift))
R2R = {"fftw_cos": (8, 0), "fftw_sin": (8, 0), "fftw_cos1": (8, -1), "fftw_sin1": (8, 1), "stock_cos": (64, 0), "stock_sin": (64, 0), "stock_cos1": (64, -1), "mkl_cos": (64, 0), "mkl_sin": (64, 0)}

def expected(bk):
    c, s = R2R.get(bk, (1, 0))
    pl = T("sym", "plan")
    d = P(c)
    for i in range(3): d = d * (P(T("idx", T("fld", pl, "fft_sizes"), P(i))) + s)
    return dom.inv(d)
def whole(v):
    """index_count is the product of the three sizes (P10)"""
    pl = T("sym", "plan")
    n = ONE
    for i in range(3): n = n * P(T("idx", T("fld", pl, "fft_sizes"), P(i)))
    return term_subst(v, T("fld", pl, "index_count"), n)
def one(ctx, p, it):
    cls, bk, c, ms = it
    exp = expected(bk)
    for f in ms:
        for scaling, nm in ((0, "none"), (1, "full"), (2, "symmetric")):
            for emp in (False, True):
                if emp and scaling != 1: continue
                b = built(p, c, emp); m = b.m
                r = run_method(b, f, scaling)
                name = "%s %s (%s) scale::%s%s" % (c["q"].rsplit("::fft3d", 1)[0].replace("heffte::", "").replace("backend::", "").replace(", int", ""), f["n"], ", ".join(r.ptypes), nm, " no data" if emp else "")
                loc = (f["file"], f["line"])
                pipes = [i for i, x in enumerate(r.effs) if x.e.kind == "pipeline"]
                if not ctx.check(len(pipes) == 1 and not r.effs[pipes[0]].loops, name + ": one transform", "%d pipeline calls" % len(pipes), loc): continue
                pe = r.effs[pipes[0]]
                dst = pe.e.d["args"][3]; mem = pe.e.d["mem"][1]
                post = [x for x in r.effs[pipes[0] + 1:] if x.e.kind == "write" and x.e.d["mem"] is mem and x.g is not FALSE and not any(N is ZERO for _, N in x.loops)]
                post = [norm_nest(x) for x in post]
                pre = [x for x in r.effs[:pipes[0]] if x.e.kind == "write" and x.e.d["mem"] is mem]
                ctx.check(not pre, name + ": the result is scaled after the transform", repr(pre[:1]), pre[0].e.loc if pre else loc)
                if scaling == 0 or emp:
                    ctx.check(not post, name + ": nothing is scaled", repr(post[:1]), post[0].e.loc if post else loc); continue
                cnt = r.outcount if f["n"] == "forward" else r.incount
                if not ctx.check(len(post) == 1, name + ": the result is scaled once", "%d scaling loops" % len(post), loc): continue
                x = post[0]; e = x.e
                g = m.under(x.g, pe.g) if hasattr(m, "under") else x.g
                span = contiguous(x, e.d["size"])
                want = r.batch * cnt * r.esout
                ctx.check((x.g is pe.g or x.g is TRUE) and span is not None and span[0] is ZERO and span[1] is want, name + ": all results are scaled", "scaled range %s, expected %s bytes, under %s" % (txt(span), txt(want), txt(x.g)), e.loc)
                ld = P(T("load", mem, e.d["off"], e.d["size"]))
                v = e.d["val"]; lt = ld.atom_term()
                co = coefficient(v, lt) if isinstance(v, Poly) else None
                ok = co is not None and co[1] is ZERO
                fac = whole(co[0]) if ok else None
                if ok and scaling == 2: fac = squared(fac)
                ctx.check(ok and fac is not None and frac_equal(fac, exp), name + ": factor", "entry becomes %s, expected entry * %s%s" % (txt(v), "sqrt of " if scaling == 2 else "", txt(exp)), e.loc)
                ctx.absorb(m)
def run(ctx):
    ctx.rules = ["on an object built by its constructor, every public transform call is followed to one pipeline run; afterwards (scale != none) one loop multiplies exactly the batch * box entries of the output by 1/N (full) or sqrt(1/N) (symmetric), N the index count of the world box (or the logical size of the sine/cosine transform); scale::none and ranks without data write nothing"]
    ctx.assumptions = ["plan.index_count is the product of the world sizes (checked by P10)", "floating-point rounding of the factor is not analysed"]
    p = program("int")
    work = {}
    for f in methods(p):
        if ctx.tier == "quick" and any("float" in p.types[x["t"]]["s"] for x in f["params"]): continue
        work.setdefault((f["cls"], backend_of(p, f)), []).append(f)
    if len(work) < 15: raise AnchorMissing("transform classes: %d" % len(work))
    its = []
    for (cls, bk), ms in work.items():
        cs = [c for c in ctors(p) if c["cls"] == cls and not delegates(c)]
        if not cs: raise AnchorMissing("constructor of " + p.recs[cls]["q"])
        for c in cs:
            mm = ms if c is cs[0] else [f for f in ms if len(f["params"]) == 3]
            for i in range(0, len(mm), 4): its.append((cls, bk, c, mm[i:i + 4]))
    ctx.parallel(its, lambda ctx, it: one(ctx, p, it))
