"""Construction of fft3d / fft3d_r2c objects: which redistributions, local transforms, sizes and factors a plan object holds."""
from planexec import *
import itertools, re

def ctors(p, index="int"):
    """public and private constructors with a body, by class"""
    out = []
    for c in CLS:
        n = c + "::" + c.rsplit("::", 1)[1]
        out += [f for f in fns(p, n) if f["k"] == "ctor"]
    return out
def backend_of(p, f): return p.recs[f["cls"]]["ta"][0].replace("heffte::backend::", "")
ME = T("sym", "me"); mark_nonneg(ME)
class Built: pass
def build(p, f, sh=(1, 1, 1, 1), bsh=None, ex=None, facts=()):
    """analyse constructor f.  sh/bsh: which of the redistributions in_shape[i]->out_shape[i] (and back) exist on this rank;
    ex(args) -> bool: does the requested local transform exist on this rank (non-empty box)"""
    b = Built(); b.resh = []; b.exec = []; b.plans = []
    def mkplan(m, t):
        o = m.sym(t, T("sym", "plan"))
        return o.with_("mpi_rank", P(ME))
    def h_plan(m, fn, this, a, n):
        v = m.snap(a, fn)
        m.effect("plan", args=v); b.plans.append(v)
        return mkplan(m, fn["ret"])
    def h_resh(m, fn, this, a, n):
        v = m.snap(a, fn)
        t = T("reshaper", len(b.resh)); b.resh.append(v); m.distinct.add(t)
        m.effect("make_reshape", args=v, id=t)
        k = shape_index(v[1])
        here = (sh if k[0] == "in_shape" else (bsh or sh))[k[1]] if k is not None else 1
        return Ptr(t) if here else NULL
    def h_exec(m, fn, this, a, n):
        v = m.snap(a, fn)
        t = T("executor", len(b.exec)); b.exec.append((fn, v)); m.distinct.add(t)
        m.effect("make_executor", args=v, id=t, fn=normq(fn["q"]))
        return Ptr(t) if ex is None or ex(fn, v) else NULL
    def h_vcall(m, fn, this, v, a, n):
        t = this.base if isinstance(this, LV) else None
        if t is not None and t.op == "executor" and fn["n"] in ("box_size", "complex_size", "workspace_size"):
            x = T("sym", "%s%d" % (fn["n"], t.args[0])); mark_nonneg(x); return P(x)
        if t is not None and t.op == "reshaper" and fn["n"] in ("size_workspace",):
            x = T("sym", "%s%d" % (fn["n"], t.args[0])); mark_nonneg(x); return P(x)
        m.effect("vcall", fn=fn["n"], obj=t, args=m.snap(a, fn))
        return m.sym(fn["ret"], fresh("vc")) if m.ty(fn["ret"])["k"] != "void" else UNDEF
    hooks = {"heffte::plan_operations": h_plan, "heffte::make_reshape3d": h_resh, "heffte::make_executor": h_exec, "heffte::make_executor_r2c": h_exec, "vcall:*": h_vcall,
             "heffte::mpi::comm_rank": lambda m, fn, this, a, n: (m.effect("rank", args=m.snap(a, fn)), P(ME))[1],
             "heffte::mpi::gather_boxes": lambda m, fn, this, a, n: (m.effect("gather", args=m.snap(a, fn)), m.sym(fn["ret"], T("sym", "world")))[1]}
    m = machine(p, hooks, facts)
    b.m = m; b.f = f
    b.this = this_obj(m, f["cls"])
    args = {}
    for i, x in enumerate(f["params"]):
        t = m.ty(x["t"]); t = m.ty(t["el"]) if t["k"] == "ref" else t
        if t["k"] == "rec" and normq(p.recs[t["rec"]]["q"]) == "heffte::logic_plan3d": args[i] = mkplan(m, x["t"] if m.ty(x["t"])["k"] != "ref" else m.ty(x["t"])["el"])
    call(m, f, args, this=b.this)
    b.obj = m.st.s[b.this.base]
    b.effs = flatten(m.rec)
    return b
SHAPE = re.compile(r"\[\{plan\.(in_shape|out_shape)\[(\d)\]\[(v\d+)\]\|\} \| \3<size\(plan\.\1\[\2\]\)\]")
def shape_index(v, strict=False):
    """a value that is plan.in_shape[k] / plan.out_shape[k]"""
    s = txt(v)
    mo = SHAPE.fullmatch(s) if strict else re.search(r"(in_shape|out_shape)\[(\d)\]", s)
    return (mo.group(1), int(mo.group(2))) if mo else None
BOX = re.compile(r"\{plan\.(in_shape|out_shape)\[(\d)\]\[me\]\|\}")
def box_index(v):
    mo = BOX.fullmatch(txt(v))
    return (mo.group(1), int(mo.group(2))) if mo else None
def dir_index(v):
    mo = re.fullmatch(r"plan\.fft_direction\[(\d)\]", txt(v))
    return int(mo.group(1)) if mo else None
def short(p, f):
    return p.recs[f["cls"]]["q"].replace("heffte::", "").replace("backend::", "").replace(", int", "")
def delegates(c):
    """a constructor that only forwards to another one of its class"""
    return any(i.get("deleg") for i in c.get("inits") or [])
def fld(*path):
    t = T("sym", "plan")
    for x in path: t = T("fld", t, x) if isinstance(x, str) else T("idx", t, x if isinstance(x, Poly) else P(x))
    return t
def sizes(shape, k):
    r = P(ME)
    return [fld(shape, k, r, "size", i) for i in range(3)]
def built(p, c, empty=False, **kw):
    facts = []
    for s, k in (("in_shape", 0), ("out_shape", 3)):
        ts = sizes(s, k)
        for t in ts: mark_nonneg(t)
        facts += [-P(ts[0])] if empty else [P(t) - 1 for t in ts]
    return build(p, c, facts=facts, **kw)
def run_method(b, f, scaling=None, hooks=None):
    m = b.m
    def h_pipe(m, fn, this, a, n):
        v = m.snap(a, fn)
        def mem(x):
            w = m.st.s.get(x.base) if isinstance(x, Ptr) else None
            return w.mem if isinstance(w, VFlat) else (x.base if isinstance(x, Ptr) else None)
        def size(x):
            w = m.st.s.get(x.base) if isinstance(x, Ptr) else None
            return w.size * w.es if isinstance(w, VFlat) else None
        m.effect("pipeline", args=v, fn=fn["id"], mem=[mem(v[2]), mem(v[3]), mem(v[4])], bytes=[size(v[2]), size(v[3]), size(v[4])], es=[m.size(m.ty(fn["params"][j]["t"])["el"]) for j in (2, 3, 4)]); return UNDEF
    m.hooks["heffte::compute_transform"] = h_pipe
    m.hooks.update(hooks or {})
    class R: pass
    r = R(); args = {}; r.batch = ONE; r.ptypes = []
    for i, x in enumerate(f["params"]):
        y = m.ty(x["t"]); r.ptypes.append(y["s"].replace("std::", "").replace("const ", ""))
        if y["k"] == "ptr": args[i] = Ptr(T("sym", x["n"] or "arg%d" % i), (), ZERO); m.distinct.add(args[i].base)
        elif y["k"] == "enum" and scaling is not None: args[i] = P(scaling)
        elif y["k"] == "int":
            t = T("sym", "batch"); mark_nonneg(t); args[i] = P(t); r.batch = P(t); m.facts.append(P(t) - 1)
    r.args = args
    k = len(m.rec)
    r.ret = call(m, f, args, this=b.this)
    r.effs = flatten(m.rec[k:])
    def prod(s, kk):
        v = ONE
        for t in sizes(s, kk): v = v * P(t)
        return v
    r.incount = prod("in_shape", 0); r.outcount = prod("out_shape", 3)
    ptrs = [m.ty(x["t"]) for x in f["params"] if m.ty(x["t"])["k"] == "ptr"]
    if len(ptrs) >= 2: r.esout = m.size(ptrs[1]["el"]); r.esin = m.size(ptrs[0]["el"])
    else:
        r.esout = m.size(m.eltype(m.strip(f["ret"]))); r.esin = None
    return r
