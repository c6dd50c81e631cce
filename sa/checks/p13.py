"""P13: local transforms address every line of the box exactly once."""
from execs import *
import stockexec
TITLE = "Local transforms cover every line of the box exactly once"
TECHNIQUE = "symbolic abstract interpretation of the executors: the enumeration of lines given to the vendor plan is compared with the memory layout of the box"
LEVEL = "proof"

def strides(size, order):
    st = [None] * 3; c = ONE
    for d in order: st[d] = c; c = c * size[d]
    return st
def family(n):
    return "r2c" if "_r2c" in n else "r2r" if n.startswith("real2real") else "c2c"
def es_of(kind, prec):
    w = 4 if prec == "float" else 8
    return (w if kind in ("r2c", "r2r") else 2 * w), (w if kind in ("c2r", "r2r") else 2 * w)
def resolve(x, v):
    """[(guard, plan)]"""
    if isinstance(v, GV):
        out = []
        for c, y in v.alts: out += [(c, pl) for _, pl in resolve(x, y)]
        return out
    return [(TRUE, x.plan_of(v))]
def lines(fl, pl, kind, prec):
    """({transformed dims}, canonical enumeration of lines, (src base, dst base, src offset, dst offset)) in elements; None if not affine"""
    d = fl.e.d; ei, eo = es_of(kind, prec)
    tr = [pl.batch]; io = d["src"].off if isinstance(d["src"], Ptr) else None; oo = d["dst"].off if isinstance(d["dst"], Ptr) else None
    if io is None or oo is None: return None
    for n, N in fl.loops:
        a, b = coefficient(io, n), coefficient(oo, n)
        if a is None or b is None: return None
        ca, cb = exact_div(a[0], P(ei)), exact_div(b[0], P(eo))
        if ca is None or cb is None: return None
        io, oo = a[1], b[1]
        if backwards(ca) and backwards(cb): io, oo, ca, cb = io + ca * P(ei) * (N - 1), oo + cb * P(eo) * (N - 1), -ca, -cb      # same lines, last one first
        tr.append((N, ca, cb))
    return pl.dims, tr, (io, oo)
def backwards(c): return bool(c.m) and all(v < 0 for v in c.m.values())
def same(a, b):
    return len(a) == len(b) and all(x is y for s, t in zip(a, b) for x, y in zip(s, t))
def srt(l): return sorted(l, key=lambda t: tuple(show(y) for y in t))
def spec(size, order, D, kind):
    """dims and line enumeration prescribed by the layout"""
    half = [fdiv(s, P(2)) + 1 if i == D[0] else s for i, s in enumerate(size)]
    si = strides(half if kind == "c2r" else size, order); so = strides(half if kind == "r2c" else size, order)
    return srt([(size[d], si[d], so[d]) for d in D]), [(size[d], si[d], so[d]) for d in range(3) if d not in D]
def fmt(l): return "{%s}" % "; ".join("%s lines every %s/%s" % tuple(map(show, t)) for t in l)
def fmtd(l): return "{%s}" % "; ".join("length %s stride %s/%s" % tuple(map(show, t)) for t in l)

def bits(t): return "float" if "float" in t else "double"
def one(ctx, it):
    pr, cls, ci, order, D = it
    p = program(pr); cs = executor_ctors(p)[cls]; c = cs[ci]; nm = cname(p, cls)
    fam = family(nm)
    name = "%s(dims %s), memory order %s" % (nm, ",".join(map(str, D)) or "all", "".join(map(str, order)))
    x = Exec(p, c, order, D, least=2 if "cos1" in nm else 1)        # the cosine transform of type I needs two entries
    if any(e.e.kind == "throw" and e.g is TRUE for e in x.built):
        return                                    # never requested: P26
    if x.m.st.dead:                               # an assertion excludes the configuration
        ctx.check(fam == "r2r" and D[0] != order[0], name + ": the configuration is supported", "construction cannot succeed", (c["file"], c["line"])); return
    DD = list(D) if D else [0, 1, 2]
    total = x.size[0] * x.size[1] * x.size[2]
    # reported sizes
    for q, want in (("box_size", total), ("complex_size", None)):
        for f in x.method(q, nparams=0):
            r = call(x.m, f, this=x.this); x.m.rec = []
            w = want
            if w is None: w = spec_size(x.size, DD[0]) if fam == "r2c" else total
            ctx.check(isinstance(r, Poly) and r is w, "%s: %s() counts the entries of the box" % (name, q), "%s instead of %s" % (txt(r), show(w)), (f["file"], f["line"]))
    served = set()
    for f in x.method("forward") + x.method("backward"):
        ty = [x.m.ty(q["t"])["s"].replace("std::", "") for q in f["params"]]
        np_ = len(x.plans)
        effs, bases, ret = x.run(f)
        if not effs: continue
        prec = bits(ty[0]); w = 4 if prec == "float" else 8
        t = "%s %s(%s)" % (name, f["n"], ", ".join(ty))
        loc = (f["file"], f["line"])
        served.add((f["n"], tuple(ty)))
        xs = [e for e in effs if e.e.kind == "xform"]
        if not ctx.check(len(xs) == 1, t + ": transforms once", "%d transform calls" % len(xs), loc): continue
        e = xs[0]; d = e.e.d
        pls = resolve(x, d["plan"])
        other = [y for y in effs if y is not e and y.e.kind not in ("new", "delete")]
        via_ws = fam == "r2r" and any(y.e.kind == "write" for y in other)       # extended signal in the work-space: P15
        xl = e.e.loc
        ctx.check(e.g is TRUE, t + ": transforms unconditionally", show(e.g), xl)
        for g, pl in pls:
            if not ctx.check(pl is not None and pl.dims is not None, t + ": the plan is known", txt(d["plan"]), xl): continue
            L = lines(e, pl, pl.kind, pl.prec)
            if not ctx.check(L is not None, t + ": lines are equally spaced", "loop %s" % (e.loops,), xl): continue
            dims, tr, off = L
            if via_ws: continue
            sd, st = spec(x.size, order, DD, pl.kind)
            ctx.check(same(srt(dims), sd), t + ": each line has the length and spacing of the transformed axes", "%s instead of %s" % (fmtd(srt(dims)), fmtd(sd)), pl.loc)
            a, b = canon(tr), canon(st)
            ctx.check(same(a, b), t + ": every line of the box is transformed once", "%s instead of %s" % (fmt(a), fmt(b)), pl.loc if pl.loc else xl)
            ctx.check(off[0] is ZERO and off[1] is ZERO and all(z is ZERO for z in getattr(pl, "offsets", ())), t + ": the first line starts at the beginning of the data", "%s/%s bytes" % (show(off[0]), show(off[1])), xl)
        if via_ws: continue
        # which arrays
        cx = ["complex" in q for q in ty]
        A = bases[0]; B = bases[1] if len(ty) == 3 else bases[0]
        S, O = d["src"].base, d["dst"].base
        if fam == "c2c" and len(ty) == 3:       # real data through the complex transform
            if f["n"] == "forward": ok = S is B and O is B; want = (B, A, P(2 * w), P(w)); before = True
            else: ok = S is A and O is A; want = (B, A, P(w), P(2 * w)); before = False
            ctx.check(ok, t + ": transforms the complex array in place", "%s -> %s" % (S, O), xl)
            ws = [y for y in other if y.e.kind == "write"]
            good = len(ws) == 1 and len(other) == 1
            if good:
                y = ws[0]; good = len(y.loops) == 1 and y.loops[0][1] is total and y.g is TRUE
                n = y.loops[0][0] if y.loops else None
                v = y.e.d["val"]
                if good: good = y.e.d["mem"] is want[0] and y.e.d["off"] is want[2] * P(n) and y.e.d["size"] == int(want[2].const)
                if good: good = copies(v, A, want[3] * P(n), int(want[3].const), not before)
                good = good and (effs.index(y) < effs.index(e)) == before
            ctx.check(good, t + ": converts every entry %s the transform" % ("before" if before else "after"), "; ".join(repr(y)[:160] for y in other), loc)
        else:
            ctx.check(S is A and O is B and not other, t + ": transforms the given arrays only", "%s -> %s %s" % (S, O, [y.e.kind for y in other]), xl)
        ctx.absorb(x.m)
    need = {"c2c": [("complex<%s> *", "complex<%s> *"), ("r", None)], "r2c": [("r", None)], "r2r": [("%s *", "%s *")]}[fam]
    if fam == "r2r" and not (D and D[0] == order[0]) and not served: return      # handled through the leading axis only
    for pr_ in ("float", "double"):
        for dr in ("forward", "backward"):
            for k in need:
                if k[0] == "r": ty = ("const %s *" % pr_, "complex<%s> *" % pr_, "complex<%s> *" % pr_) if dr == "forward" else ("complex<%s> *" % pr_, "%s *" % pr_, "complex<%s> *" % pr_)
                else: ty = tuple(q % pr_ for q in k)
                ctx.check((dr, ty) in served, "%s: %s(%s) performs a transform" % (name, dr, ", ".join(ty)), "nothing is done", (c["file"], c["line"]))
def spec_size(size, d):
    c = ONE
    for i in range(3): c = c * ((fdiv(size[i], P(2)) + 1) if i == d else size[i])
    return c
def copies(v, base, off, size, real):
    """v is the entry at base+off (its real part if real)"""
    if isinstance(v, Poly): v = v.atom_term()
    if v is None: return False
    if real:
        if v.op != "re": return False
        v = v.args[0]
        if isinstance(v, Poly): v = v.atom_term()
    return v is not None and v.op == "load" and v.args[0] is base and P(v.args[1]) is off and P(v.args[2]) is P(size)
def run(ctx):
    ctx.rules = ["per executor, transformed axes and memory order: the plan's lengths/strides, the batch (count, distances) and the block loop enumerate, after merging contiguous nests, exactly the lines of the box along the transformed axes, on the input and the output side (half length on the complex side of a real transform), starting at offset 0",
                 "conversions between real and complex data cover every entry and are on the right side of the transform",
                 "box_size() and complex_size() equal the number of entries"]
    ctx.rules.append("built-in back end: for each length and number of lines within the bound (strides and distances symbolic) every entry of every planned line, and nothing else, receives the corresponding entry of the transform of that line, in the plan's direction")
    ctx.assumptions = ["non-empty boxes (executors are not created for empty boxes)", "meaning of the FFTW advanced interface and of DftiSetValue as documented by the vendors", "sine/cosine executors that go through an extended signal: checked by P15"]
    its = []
    for pr in (("int", "long long") if ctx.tier == "thorough" else ("int",)):
        p = program(pr)
        ex = executor_ctors(p)
        if len(ex) < 10: raise AnchorMissing("local transform classes: %d" % len(ex))
        for cls, cs in ex.items():
            nm = cname(p, cls)
            for ci, c in enumerate(cs):
                nd = sum(1 for x in c["params"] if p.types[x["t"]]["k"] == "int")
                ds = [(i,) for i in range(3)] if nd == 1 else list(itertools.permutations(range(3), 2)) if nd == 2 else [()]
                for o in ORDERS:
                    for d in ds: its.append((pr, cls, ci, o, d))
    ctx.parallel(its, one)
    p = program("int"); fs = stockexec.executes(p)
    if len(fs) < 8: raise AnchorMissing("execute() of the built-in plans: %d" % len(fs))
    hi = 12 if ctx.tier == "thorough" else 6
    for f in fs: ctx.absorb(stockexec.check(ctx, p, f, range(1, hi + 1), range(1, 2 * hi + 1)))
    stockexec.check_pad(ctx, p)
