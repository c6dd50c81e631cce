"""Public transform calls of fft3d / fft3d_r2c: one trace per instantiated method."""
from harness import *
def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
CLS = ("heffte::fft3d", "heffte::fft3d_r2c")
def methods(p, names=("forward", "backward", "backward_real")):
    out = []
    for c in CLS:
        for n in names: out += fns(p, c + "::" + n)
    return out
def trace_method(p, f, hooks=None, scaling=None, facts=(), noscale=True):
    class R: pass
    r = R()
    def h_pipe(m, fn, this, a, n):
        m.effect("pipeline", args=m.snap(a, fn), fn=fn["id"]); return UNDEF
    def h_scale(m, fn, this, a, n):
        m.effect("scale", args=m.snap(a, fn), fn=fn["id"]); return UNDEF
    hk = {"heffte::compute_transform": h_pipe, "heffte::data_scaling::apply": h_scale}
    hk.update(hooks or {})
    m = machine(p, hk, facts)
    r.m = m
    args = {}
    for i, x in enumerate(f["params"]):
        y = m.ty(x["t"])
        if y["k"] == "ptr": args[i] = Ptr(T("sym", x["n"] or "arg%d" % i), (), ZERO)
        elif x["n"] == "scaling" and scaling is not None: args[i] = P(scaling)
    for i in args:
        if isinstance(args[i], Ptr): m.distinct.add(args[i].base)
    r.args = args
    r.ret = call(m, f, args)
    r.effs = flatten(m.rec)
    return r
