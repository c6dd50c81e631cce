"""Local transforms (executors): construction on a symbolic box, vendor plans and executions in a back-end independent form."""
from harness import *
import re, itertools
def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
ORDERS = list(itertools.permutations(range(3)))
def executor_ctors(p):
    """{class record id: [constructors]} of all local transforms (classes derived from executor_base)"""
    def derived(r, seen=()):
        return any(normq(p.recs[b]["q"]) == "heffte::executor_base" or derived(p.recs[b]) for b in (r.get("bases") or []) if b in p.recs)
    out = {}
    for f in p.fns.values():
        if f["k"] == "ctor" and f.get("body") is not None and f.get("cls") in p.recs and derived(p.recs[f["cls"]]):
            out.setdefault(f["cls"], []).append(f)
    return out
def cname(p, cls):
    r = p.recs[cls]
    return (r["q"] + ("<%s>" % ", ".join(r.get("ta") or []) if r.get("ta") else "")).replace("heffte::", "").replace("backend::", "")
class VPlan:
    """vendor plan: kind c2c/r2c/c2r/r2r, sign, precision, dims [(n, istride, ostride)], batch (count, idist, odist), strides in elements"""
    def __init__(s): s.kind = s.sign = s.prec = None; s.dims = None; s.batch = None; s.flags = ZERO; s.kinds = None; s.placement = None; s.loc = None; s.set = {}; s.committed = False; s.freed = 0
FFTW = re.compile(r"fftw(f?)_plan_many_(dft_r2c|dft_c2r|dft|r2r)$")
FFTWX = re.compile(r"fftw(f?)_execute_(dft_r2c|dft_c2r|dft|r2r)$")
class Exec:
    def __init__(s, p, c, order, dims, facts=(), hooks=None, least=1):
        s.p, s.c, s.order, s.dims = p, c, order, dims
        s.plans = {}
        s.cls = c["cls"]
        H = {"vcall:*": s.h_vcall}
        for f in p.fns.values():
            n = f["q"]
            if FFTW.match(n): H[n] = s.h_fftw_plan
            elif FFTWX.match(n): H[n] = s.h_fftw_exec
            elif re.match(r"DftiCreateDescriptor_[sd]_(1d|md)$", n): H[n] = s.h_dfti_create
            elif n == "DftiSetValue": H[n] = s.h_dfti_set
            elif n == "DftiCommitDescriptor": H[n] = s.h_dfti_commit
            elif n in ("DftiComputeForward", "DftiComputeBackward"): H[n] = s.h_dfti_exec
        H["heffte::plan_stock_fft::execute"] = s.h_stock
        H["heffte::stock::init_fft_tree"] = lambda m, fn, this, a, n: UNDEF
        H["heffte::stock::getNumNodes"] = lambda m, fn, this, a, n: P(T("app", "nodes", P(a[0])))
        H.update(hooks or {})
        m = s.m = machine(p, H, facts)
        s.this = this_obj(m, s.cls, "self")
        bx = T("sym", "box")
        m.facts += [P(T("idx", T("fld", bx, "size"), P(i))) - least for i in range(3)]
        for i in range(3): mark_nonneg(T("idx", T("fld", bx, "size"), P(i)))
        s.size = [P(T("idx", T("fld", bx, "size"), P(i))) for i in range(3)]
        m.facts += [s.size[i] * s.size[j] - 1 for i, j in ((0, 1), (0, 2), (1, 2))] + [s.size[0] * s.size[1] * s.size[2] - 1]
        low = [P(T("idx", T("fld", bx, "low"), P(i))) for i in range(3)]
        a = {}
        ints = []
        for i, x in enumerate(c["params"]):
            y = m.ty(x["t"]); t = y["el"] if y["k"] == "ref" else x["t"]; y = m.ty(t)
            if y["k"] == "rec" and normq(p.recs[y["rec"]]["q"]) == "heffte::box3d":
                b = m.sym(t, bx)
                of = m.objfield(b, "order"); sf = m.objfield(b, "low")
                b = b.with_("order", VElems(of.et, of.es, [P(v) for v in order]))
                b = b.with_("high", VElems(sf.et, sf.es, [low[k] + s.size[k] - 1 for k in range(3)]))
                b = b.with_("size", VElems(sf.et, sf.es, list(s.size)))
                a[i] = b
            elif y["k"] == "int": ints.append(i)
        for i, d in zip(ints, dims): a[i] = P(d)
        if len(ints) != len(dims): raise AnchorMissing("dimensions of " + c["q"])
        call(m, c, a, this=s.this)
        s.built = flatten(m.rec); m.rec = []
    @property
    def obj(s): return s.m.st.s[s.this.base]
    def method(s, name, types=None, nparams=None):
        """the final overrider of an executor method"""
        out = []
        def go(cls):
            for f in s.p.fns.values():
                if f.get("cls") == cls and f["n"] == name and f.get("body") is not None and not f.get("ta"):
                    ty = [s.m.ty(x["t"])["s"] for x in f["params"]]
                    if (types is None or ty == types) and (nparams is None or len(ty) == nparams) and not any(g[1] == ty for g in out): out.append((f, ty))
            for b in s.p.recs[cls].get("bases") or []:
                if b in s.p.recs: go(b)
        go(s.cls)
        return [f for f, _ in out]
    def h_vcall(s, m, fn, this, v, a, n):
        b = this.base if isinstance(this, LV) else None
        if b is s.this.base:
            ms = s.method(fn["n"], [m.ty(x["t"])["s"] for x in fn["params"]])
            if ms: return m.inline(ms[0], this, a)
        m.effect("vcall", fn=fn["n"], cls=fn.get("cls"), obj=b, args=m.snap(a, fn), ptypes=[x["t"] for x in fn["params"]])
        return m.sym(fn["ret"], fresh("vc")) if m.ty(fn["ret"])["k"] != "void" else UNDEF
    # ---- FFTW
    def ints(s, m, v, k):
        """k integers behind a pointer; None for null"""
        if isinstance(v, Ptr) and v.base is NULL.base: return None
        if not isinstance(v, Ptr): raise AnchorMissing("array argument of a plan: %r" % (v,))
        c = m.st.s.get(v.base)
        for x in v.path: c = m.get_step(c, x)
        if isinstance(c, Poly) and k == 1: return [c]
        if isinstance(c, VElems) and (v.off is None or v.off is ZERO) and len(c.el) >= k and all(isinstance(x, (Poly, BD)) for x in c.el[:k]): return [P(x) for x in c.el[:k]]
        raise AnchorMissing("array argument of a plan: %r" % (c,))
    def new(s, m, q, n):
        h = T("plan", len(s.plans)); P_ = VPlan(); P_.q = q; s.plans[h] = P_; m.distinct.add(h)
        P_.loc = m.loc
        return h, P_
    def h_fftw_plan(s, m, fn, this, a, n):
        mo = FFTW.match(fn["q"]); kind = mo.group(2)
        h, pl = s.new(m, fn["q"], n)
        pl.prec = "float" if mo.group(1) else "double"
        pl.kind = {"dft": "c2c", "dft_r2c": "r2c", "dft_c2r": "c2r", "r2r": "r2r"}[kind]
        r = a[0]
        if not (isinstance(r, Poly) and r.is_const): raise AnchorMissing("rank of the plan: %r" % (r,))
        k = int(r.const)
        nn = s.ints(m, a[1], k); ie = s.ints(m, a[4], k); oe = s.ints(m, a[8], k)
        # default storage
        def dims(e, st, half):
            e = e if e is not None else [x for x in nn[:-1]] + [(fdiv(nn[-1], P(2)) + 1) if half else nn[-1]]
            out = []; c = st
            for i in range(k - 1, -1, -1): out.insert(0, c); c = c * e[i]
            return out
        si = dims(ie, a[5], pl.kind == "c2r"); so = dims(oe, a[9], pl.kind == "r2c")
        pl.dims = list(zip(nn, si, so)); pl.batch = (a[2], a[6], a[10])
        pl.placement = "in" if isinstance(a[3], Ptr) and isinstance(a[7], Ptr) and a[3].base is a[7].base else "out"
        if kind == "dft": pl.sign = int(a[11].const) if a[11].is_const else None; pl.flags = a[12]
        elif kind == "r2r":
            ks = s.ints(m, a[11], k); pl.kinds = [int(x.const) if isinstance(x, Poly) and x.is_const else None for x in ks]; pl.flags = a[12]
        else: pl.sign = -1 if kind == "dft_r2c" else 1; pl.flags = a[11]
        return Ptr(h)
    def plan_of(s, v):
        return s.plans.get(v.base) if isinstance(v, Ptr) else None
    def h_fftw_exec(s, m, fn, this, a, n):
        mo = FFTWX.match(fn["q"])
        v = [m.read(x) if isinstance(x, (LV, MLV)) else x for x in a]
        m.effect("xform", plan=v[0], src=v[1], dst=v[2], fn=fn["q"], xkind={"dft": "c2c", "dft_r2c": "r2c", "dft_c2r": "c2r", "r2r": "r2r"}[mo.group(2)], prec="float" if mo.group(1) else "double", sign=None)
        return UNDEF
    # ---- MKL
    def h_dfti_create(s, m, fn, this, a, n):
        mo = re.match(r"DftiCreateDescriptor_([sd])_(1d|md)$", fn["q"])
        h, pl = s.new(m, fn["q"], n)
        pl.prec = "float" if mo.group(1) == "s" else "double"
        pl.domain = int(a[1].const)
        if mo.group(2) == "1d": nn = [a[2]]
        else: nn = s.ints(m, a[3], int(a[2].const))
        pl.n = nn; pl.set = {7: ONE, 11: P(43), 14: ZERO, 15: ZERO}
        m.write(LV(a[0].base, a[0].path), Ptr(h))
        return ZERO
    def h_dfti_set(s, m, fn, this, a, n):
        pl = s.plan_of(a[0])
        if pl is None: raise AnchorMissing("DftiSetValue on an unknown descriptor")
        k = int(a[1].const); v = a[2]
        if k in (12, 13): v = s.ints(m, v, len(pl.n) + 1)
        pl.set[k] = v
        if pl.committed: pl.late = True
        return ZERO
    def h_dfti_commit(s, m, fn, this, a, n):
        pl = s.plan_of(a[0])
        if pl is not None: pl.committed = True
        return ZERO
    def finish_mkl(s, pl, fwd):
        st = pl.set; nn = pl.n; k = len(nn)
        def dflt():
            out = []; c = ONE
            for i in range(k - 1, -1, -1): out.insert(0, c); c = c * nn[i]
            return [ZERO] + out
        si, so = st.get(12) or dflt(), st.get(13) or dflt()
        pl.place = int(st[11].const)
        if pl.place == 43: so = si; 
        pl.offsets = (si[0], so[0])
        pl.dims = list(zip(nn, si[1:], so[1:])); pl.batch = (st[7], st[14], st[15])
        pl.kind = "c2c" if pl.domain == 32 else ("r2c" if fwd else "c2r")
        pl.sign = -1 if fwd else 1
    def h_dfti_exec(s, m, fn, this, a, n):
        pl = s.plan_of(a[0]); fwd = fn["q"] == "DftiComputeForward"
        if pl is not None: s.finish_mkl(pl, fwd)
        m.effect("xform", plan=a[0], src=a[1], dst=a[2] if len(a) > 2 else a[1], fn=fn["q"], xkind=None, prec=None, sign=-1 if fwd else 1)
        return ZERO
    # ---- built-in
    def h_stock(s, m, fn, this, a, n):
        o = m.read(this)
        ta = s.p.recs[fn["cls"]]["ta"]
        h, pl = s.new(m, fn["q"], n)
        prec = "float" if "float" in ta[0] else "double"
        pl.prec = prec
        tys = [m.ty(x["t"]) for x in fn["params"]]
        cx = ["complex" in t["s"] for t in tys]
        pl.kind = "c2c" if len(a) == 1 else ("r2c" if cx[1] else "c2r")
        pl.sign = -1 if ta[1] in ("0", "forward", "heffte::direction::forward") else 1
        g = lambda k: m.objfield(o, k)
        if pl.kind == "c2c": i, d = g("idist"), g("odist")
        elif pl.kind == "r2c": i, d = g("real_d"), g("comp_d")
        else: i, d = g("comp_d"), g("real_d")
        pl.dims = [(g("N"), g("stride_sz"), g("stride_sz"))]; pl.batch = (g("num_ffts"), i, d)
        pl.placement = "in" if len(a) == 1 else "out"
        v = [m.read(x) if isinstance(x, (LV, MLV)) else x for x in a]
        m.effect("xform", plan=Ptr(h), src=v[0], dst=v[-1], fn=fn["q"], xkind=None, prec=prec, sign=pl.sign)
        return UNDEF
    def run(s, f, tag=""):
        """analyse one method; returns flattened effects and argument bases"""
        m = s.m; m.rec = []
        args = {}; bases = []
        for i, x in enumerate(f["params"]):
            b = T("sym", "%s%d" % (tag or "arg", i)); m.distinct.add(b); bases.append(b)
            args[i] = Ptr(b, (), ZERO)
        ret = call(m, f, args, this=s.this)
        return flatten(m.rec), bases, ret
def canon(tr):
    """enumeration of (count, input stride, output stride): merge nested contiguous loops, drop single iterations; sorted"""
    tr = [t for t in tr if t[0] is not ONE]
    ch = True
    while ch:
        ch = False
        for a in tr:
            for b in tr:
                if a is not b and b[1] is a[1] * a[0] and b[2] is a[2] * a[0]:
                    tr = [x for x in tr if x is not a and x is not b] + [(a[0] * b[0], a[1], a[2])]; ch = True; break
            if ch: break
    return sorted(tr, key=lambda t: (show(t[1]), show(t[2]), show(t[0])))
