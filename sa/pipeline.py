"""Execution pipelines (compute_transform): concrete stage patterns, symbolic sizes, offsets and batch."""
from harness import *
import itertools
def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)

class Scen:
    """kind: c2c | r2c | c2r | r2r.  shaper[k] present, fuse in 1d/01/12/3d (position in *this* direction), empty: layout index -> bool"""
    def __init__(s, kind, sh, fuse, emp, dir, alias, cplx=True):
        s.kind, s.sh, s.fuse, s.emp, s.dir, s.alias = kind, sh, fuse, emp, dir, alias
    def __repr__(s): return "%s %s %s redistributions=%s transforms=%s no-data=%s" % (s.kind, "forward" if s.dir == 0 else "backward", "in-place" if s.alias else "out-of-place",
        "".join(map(str, s.sh)), s.fuse, "".join(str(int(x)) for x in s.emp) )
def owners(fuse):
    """stage index -> executor index that performs it (None: performed by another one)"""
    return {"1d": (0, 1, 2), "f01": (0, None, 2), "f12": (0, None, 2), "3d0": (0, None, None), "3d2": (None, None, 2)}[fuse]
def segments(sh):
    """layouts 0..4 (before redistribution 0, after 0, .., after 3) grouped by absent redistributions"""
    seg = [0]
    for k in range(4): seg.append(seg[-1] + (1 if sh[k] else 0))
    return seg
def scenarios(kind, alias=(False,), dirs=(0, 1), r2cplan=False):
    for sh in itertools.product((0, 1), repeat=4):
        fuses = ["1d"]
        if not r2cplan:
            if not sh[1]: fuses.append("f01")
            if not sh[2]: fuses.append("f12")
        for d in dirs:
            fs = list(fuses)
            if not r2cplan and not sh[1] and not sh[2]: fs.append("3d0" if d == 0 else "3d2")
            seg = segments(sh)
            for e in itertools.product((False, True), repeat=seg[-1] + 1):
                emp = [e[x] for x in seg]
                for f in fs:
                    for al in alias: yield Scen(kind, sh, f, emp, d, al)

def point_sizes(sc, r2cplan):
    """entries per batch of every data point of the pipeline:
    pre[k]/post[k] before/after redistribution k; stage i turns post[i] into pre[i+1]"""
    conv = (0 if sc.dir == 0 else 2) if r2cplan else None
    names = {}
    cur = 0
    pre, post = [], []
    def sym(i, e):
        if e: return ZERO
        t = T("sym", "size%d" % i); mark_nonneg(t); return P(t)
    for k in range(4):
        pre.append(sym(cur, sc.emp[k]))
        if sc.sh[k]: cur += 1
        post.append(sym(cur, sc.emp[k + 1]))
        if k == conv: cur += 1
    return pre, post

class Run: pass
def analyse(p, f, sc, r2cplan=False):
    """analyse one instance of compute_transform for one scenario; returns the ordered events"""
    r = Run(); r.sc = sc; r.f = f; r.events = []
    pre, post = point_sizes(sc, r2cplan)
    r.pre, r.post = pre, post
    box = [post[0], post[1], post[2]]; cpx = [pre[1], pre[2], pre[3]]
    if sc.dir == 1 and r2cplan: box[2], cpx[2] = pre[3], post[2]
    r.box, r.cpx = box, cpx
    own = owners(sc.fuse)
    # an executor exists when the box of the stage it is built for has data
    ex = []
    for i in range(3): ex.append(own[i] is not None and not sc.emp[i + 1])
    r.ex = ex
    events = r.events
    IN, OUT, WS = T("sym", "IN"), T("sym", "OUT"), T("sym", "WS")
    if sc.alias: OUT = IN
    r.IN, r.OUT, r.WS = IN, OUT, WS
    def h_vcall(m, fn, this, v, a, n):
        b = this.base if isinstance(this, LV) else None
        nm = fn["n"]
        if b is None or b.op not in ("exec", "shaper"):
            m.effect("stage", what="missing", i=None, fn=nm, args=[])
            return m.sym(fn["ret"], fresh("nul")) if m.ty(fn["ret"])["k"] != "void" else UNDEF
        i = b.args[0]
        if b.op == "exec":
            if nm == "box_size": return box[i]
            if nm == "complex_size": return cpx[i]
            if nm == "workspace_size": return P(T("sym", "exec_ws%d" % i))
        if b.op == "shaper" and nm == "size_workspace": return P(T("sym", "shaper_ws%d" % i))
        m.effect("stage", what=b.op, i=i, fn=nm, args=m.snap(a, fn), ptypes=[x["t"] for x in fn["params"]])
        return UNDEF
    def h_copy(m, fn, this, a, n):
        m.effect("copy", args=m.snap(a, fn), tys=[x["t"] for x in fn["params"]])
        return UNDEF
    hooks = {"vcall:*": h_vcall, "heffte::backend::data_manipulator::copy_n": h_copy}
    m = machine(p, hooks)
    r.m = m
    m.distinct = {IN, OUT, WS}
    ps = f["params"]
    et = m.strip(m.ty(ps[7]["t"])["el"] if m.ty(ps[7]["t"])["k"] == "ref" else ps[7]["t"])
    ups = m.eltype(et)
    shv = VElems(ups, m.size(ups), [Ptr(T("shaper", k)) if sc.sh[k] else NULL for k in range(4)])
    xt = m.strip(m.ty(ps[8]["t"])["el"] if m.ty(ps[8]["t"])["k"] == "ref" else ps[8]["t"])
    exv = VElems(m.eltype(xt), m.size(m.eltype(xt)), [Ptr(T("exec", k)) if ex[k] else NULL for k in range(3)])
    B = T("sym", "batch_size"); mark_nonneg(B); r.B = P(B)
    CO = T("sym", "comm_offset"); mark_nonneg(CO); r.CO = P(CO)
    EO = T("sym", "exec_offset"); mark_nonneg(EO); r.EO = P(EO)
    args = {1: P(B), 2: Ptr(IN, (), ZERO), 3: Ptr(OUT, (), ZERO), 4: Ptr(WS, (), ZERO), 5: P(EO), 6: P(CO), 7: m.temp(shv), 8: m.temp(exv), 9: P(sc.dir)}
    for k in range(4): m.distinct.add(T("shaper", k))
    for k in range(3): m.distinct.add(T("exec", k))
    call(m, f, args)
    r.tys = [m.ty(ps[j]["t"])["s"] for j in (2, 3, 4)]
    r.floc = (f["file"], f.get("line", 0))
    r.el = [m.size(m.ty(ps[j]["t"])["el"]) for j in (2, 3, 4)]
    r.effs = m.rec
    return r

# ------------------------------------------------------------------ protocol of a pipeline run
def flat_events(r):
    return flatten(r.effs)
def const_guard(g): return g is TRUE
def simulate(r, report):
    """follow the data through the events; report(rule, ok, detail, loc)"""
    sc = r.sc; m = r.m; B = r.B
    elt = {"in": r.el[0], "out": r.el[1], "ws": r.el[2]}
    state = {"pt": ("pre", 0)}          # next thing to happen: redistribution 0
    cur = (r.IN, ZERO, r.el[0])         # base, byte offset, element size
    size = r.pre[0]
    nextk = 0                           # next redistribution
    nexti = 0                           # next stage
    done_s, done_e = [], []
    clean = True
    def at(ptr, size, cur):
        return size is ZERO or (isinstance(ptr, Ptr) and ptr.base is cur[0] and not ptr.path and ptr.off is cur[1])
    conv = None
    if sc.kind == "r2c": conv = 0
    if sc.kind == "c2r": conv = 2
    ok_all = True
    for fl in flat_events(r):
        e = fl.e
        if e.kind not in ("stage", "copy"): continue
        a = e.d["args"]
        g = fl.g
        if e.kind == "copy":
            src, cnt, dst = a[1], a[2], a[3]
            ok = report("a copy moves the whole current data", at(src, size, cur) and cnt is B * size and g is TRUE and not fl.loops, "copies %s entries of %s to %s, the data is %s entries at %s" % (txt(cnt), txt(src), txt(dst), txt(B * size), txt(Ptr(cur[0], (), cur[1]))), e.loc)
            if not ok: return
            if isinstance(dst, Ptr): cur = (dst.base, dst.off, cur[2])
            continue
        if e.d["what"] == "missing":
            report("no absent stage is used", False, "%s() is called on a stage that does not exist on this rank" % e.d["fn"], e.loc); return
        if e.d["what"] == "shaper":
            k = e.d["i"]
            ok = report("redistributions run once and in order", k >= nextk and not any(sc.sh[j] for j in range(nextk, k)) and g is TRUE and not fl.loops and e.d["fn"] == "apply", "redistribution %d when %d is next" % (k, nextk), e.loc)
            ok &= report("local transforms run before the next redistribution", not any(r.ex[j] for j in range(nexti, k)), "redistribution %d before local transform %d" % (k, nexti), e.loc)
            if not ok: return
            bs, src, dst, ws = a
            ok = report("a redistribution gets the current data", at(src, r.pre[k], cur), "reads %s, the data is at %s" % (txt(src), txt(Ptr(cur[0], (), cur[1]))), e.loc)
            ok &= report("a redistribution handles the whole batch", bs is B, txt(bs), e.loc)
            if not ok: return
            es = m.size(m.ty(e.d["ptypes"][2])["el"])
            wt = cur[2] if conv is None else (r.el[0] if k <= conv else r.el[1])
            ok = report("a redistribution uses the element type of the data", es == wt, "element size %s, data element size %s" % (es, wt), e.loc)
            if not ok: return
            cur = (dst.base, dst.off, es) if isinstance(dst, Ptr) else cur
            size = r.post[k]; nextk = k + 1; nexti = max(nexti, k); done_s.append(k)
            continue
        # local transform
        i = e.d["i"]
        ok = report("local transforms run once and in order", i >= nexti and not any(r.ex[j] for j in range(nexti, i)), "local transform %d when %d is next" % (i, nexti), e.loc)
        ok &= report("redistributions run before the local transform they prepare", not any(sc.sh[j] for j in range(nextk, i + 1)), "local transform %d before redistribution %d" % (i, nextk), e.loc)
        ok &= report("the local transform has the direction of the call", e.d["fn"] == ("forward" if sc.dir == 0 else "backward"), e.d["fn"], e.loc)
        if not ok: return
        ok = report("a local transform runs for every batch entry once", g is TRUE and len(fl.loops) == 1 and fl.loops[0][1] is B, "loops %s guard %s" % (fl.loops, txt(g)), e.loc)
        if not ok: return
        n = fl.loops[0][0]
        two = len(a) == 3
        src = a[0]; dst = a[1] if two else a[0]
        es = m.size(m.ty(e.d["ptypes"][0])["el"]); ed = m.size(m.ty(e.d["ptypes"][1])["el"]) if two else es
        insz, outsz = r.post[i], (r.pre[i + 1] if two else r.post[i])
        want = cur[1] + P(n) * insz * cur[2]
        ok = report("a local transform works on the current data", isinstance(src, Ptr) and src.base is cur[0] and (src.off is want), "entry %s at %s, expected offset %s" % (show(P(n)), txt(src), txt(want)), e.loc)
        ok &= report("a local transform uses the element type of the data", es == cur[2], "element size %s, data element size %s" % (es, cur[2]), e.loc)
        if conv is not None: ok &= report("the real/complex conversion happens in the planned stage", two == (i == conv), "stage %d %s" % (i, "converts" if two else "does not convert"), e.loc)
        else: ok &= report("the local transform is in place", not two or (dst.base is src.base and dst.off is src.off), txt(dst), e.loc)
        if not ok: return
        if two:
            base = subst(dst.off, {n: ZERO}) if isinstance(dst, Ptr) else None
            ok = report("the converted data is stored contiguously per batch entry", isinstance(dst, Ptr) and dst.off is base + P(n) * outsz * ed, txt(dst), e.loc)
            if not ok: return
            cur = (dst.base, base, ed)
        size = outsz
        nexti = i + 1; done_e.append(i)
    report("every redistribution is executed", not any(sc.sh[j] for j in range(nextk, 4)), "redistribution(s) %s left out" % [j for j in range(nextk, 4) if sc.sh[j]], r.floc)
    report("every local transform is executed", not any(r.ex[j] for j in range(nexti, 3)), "local transform(s) %s left out" % [j for j in range(nexti, 3) if r.ex[j]], r.floc)
    report("the result is in the output array", size is ZERO or (cur[0] is r.OUT and cur[1] is ZERO and cur[2] == r.el[1]), "the result is left at %s" % txt(Ptr(cur[0], (), cur[1])), r.floc)
def kind_of(m, f):
    t = [m.ty(m.ty(x["t"])["el"]) for x in f["params"][2:5]]
    s = ["complex" in x["s"] for x in t]
    if s[0] and s[1]: return "c2c"
    if not s[0] and not s[1]: return "r2r"
    return "r2c" if s[1] else "c2r"
def instances(p):
    """one instance per pipeline kind and precision: [(kind, function)]"""
    out = {}
    m = machine(p)
    for f in fns(p, "heffte::compute_transform"):
        if "long long" in m.ty(f["params"][7]["t"])["s"]: continue
        out.setdefault((kind_of(m, f), m.ty(f["params"][2]["t"])["s"]), f)
    return out
