"""The built-in (stock) plans: simulate the array effects of execute() for concrete lengths and batch counts.
The strides stay symbolic; the data are opaque terms."""
from harness import *
from harness import subst
S = "heffte::stock::"
def _val(m, x): return m.read(x) if isinstance(x, (LV, MLV)) else x
def _terms(m, a):
    out = []
    for x in a:
        x = _val(m, x)
        if isinstance(x, Ptr): out += [x.base, P(x.off if x.off is not None else 0)]
        elif isinstance(x, (Poly, int, BD)): out.append(P(x))
        else: raise Unknown("argument %r of a stock routine" % (x,))
    return out
class Unknown(Exception): pass
def hooks(count):
    def ctor(m, fn, this, a, n):
        ps = [m.ty(x["t"]) for x in fn["params"]]
        if not a: return ZERO
        if len(a) == 1 and ps[0]["k"] in ("ref", "vec"): return _val(m, a[0])
        return P(T("app", "load%d" % len(a), *_terms(m, a)))
    def asg(m, fn, this, a, n):
        m.write(this, _val(m, a[0]), ty=getattr(this, "ty", None)); return this
    def conj(m, fn, this, a, n): return P(T("app", "conj", P(m.read(this))))
    def idx(m, fn, this, a, n): return P(T("app", "lane", P(m.read(this)), P(_val(m, a[0]))))
    def pad(m, fn, this, a, n): return P(T("app", "pad", *_terms(m, a)))
    def fft(m, fn, this, a, n):
        v = [_val(m, x) for x in a]
        for i in (0, 1):
            w = m.st.s.get(v[i].base) if isinstance(v[i], Ptr) else None
            if isinstance(w, VFlat): v[i] = Ptr(w.mem, v[i].path if v[i].off is None else (), v[i].off)
        m.effect("fft", src=v[0], dst=v[1], sin=v[2], sout=v[3], root=v[4], dir=v[5], node=this); return UNDEF
    return {"heffte::copy_pad": pad, S + "Fourier_Transform::operator()": fft, S + "Complex::Complex": ctor, S + "Complex::operator=": asg,
            S + "Complex::operator[]": idx, S + "Complex::conjugate": conj}
def executes(p):
    return [f for f in p.fns.values() if f["n"] == "execute" and "plan_stock_fft" in f["q"] and f.get("body")]
def ctor_of(p, f):
    c = [g for g in p.fns.values() if g["k"] == "ctor" and g.get("cls") == f["cls"] and len(g["params"]) in (4, 5) and g.get("body")]
    if len(c) != 1: raise AnchorMissing("constructor of %s" % f["q"])
    return c[0]
def grow(m, fn, this, a, n):
    v = [_val(m, x) for x in a]; m.effect("tree", root=v[0], n=v[1]); return UNDEF
def number(m, fn, this, a, n): return P(T("app", "nodes", P(_val(m, a[0]))))
def trace(p, f):
    """execute() of a plan built with symbolic parameters; -> machine, parameter symbols, array bases"""
    H = hooks(0); H[S + "getNumNodes"] = number; H[S + "init_fft_tree"] = grow
    m = machine(p, H)
    c = ctor_of(p, f); this = this_obj(m, f["cls"])
    par = [T("sym", "$" + q["n"]) for q in c["params"]]
    call(m, c, args={i: P(x) for i, x in enumerate(par)}, this=this)
    m.built = m.rec; m.rec = []
    bases = [T("sym", "$" + q["n"]) for q in f["params"]]
    call(m, f, args={i: Ptr(b, (), ZERO) for i, b in enumerate(bases)}, this=this)
    return m, par, bases
class Sim:
    """concrete replay of the effect tree; self.fail = first error"""
    def __init__(s, m, consts, lanes, bases):
        s.m, s.c, s.L, s.b = m, consts, lanes, bases
        s.arr = {}; s.out = {}; s.nfft = 0; s.writes = []; s.reads = []
    def num(s, x, env):
        x = subst(P(x), env) if not isinstance(x, int) else P(x)
        for t, v in s.c: x = term_subst(x, t, P(v))
        return x
    def run(s, effs, env):
        for e in effs:
            g = s.bool(e.g, env)
            if g is False: continue
            if e.kind == "loop":
                N = s.num(e.N, env)
                if N.const is None: raise Unknown("loop count %s" % show(N))
                for i in range(int(N.const)):
                    en = dict(env); en[e.n] = P(i)
                    s.run(e.body, en)
            elif e.kind == "write": s.write(e, env)
            elif e.kind == "fft": s.fft(e, env)
            elif e.kind == "throw": raise Unknown("throws")
    def bool(s, g, env):
        if g is TRUE: return True
        g = subst(g, env)
        for t, v in s.c: g = term_subst(g, t, P(v))
        if g is TRUE: return True
        if g is FALSE: return False
        raise Unknown("condition %s" % show(g))
    def write(s, e, env):
        mem = e.d["mem"]; off = s.num(e.d["off"], env); v = s.value(e.d["val"], env); sz = e.d["size"]
        if mem in s.b: s.writes.append((mem, off, sz, v, e.loc)); return
        if off.const is None: raise Unknown("position %s of %s" % (show(off), mem))
        s.arr[(mem, int(off.const))] = v
    def value(s, v, env):
        """-> tuple of lanes (each a scalar expression) or a scalar"""
        t = P(v).atom_term() if not isinstance(v, Term) else v
        if t is None:
            c = P(v).const
            if c is not None: return ("num", c)
            raise Unknown("value %s" % show(P(v)))
        if t.op == "app":
            k = t.args[0]
            if k == "lane":
                x = s.value(t.args[1], env); j = s.num(t.args[2], env).const
                if j is None or not 0 <= j < len(x): raise Unknown("lane %s" % show(s.num(t.args[2], env)))
                return x[int(j)]
            if k == "conj": return tuple(("conj", y) if not (y and y[0] == "conj") else y[1] for y in s.value(t.args[1], env))
            if k in ("pad", "load2", "load1"):
                a = t.args[1:]; base, off = a[0], s.num(a[1], env)
                if k == "pad": cnt, st = s.num(a[2], env), s.num(a[3], env)
                elif k == "load2": cnt, st = P(s.L), s.num(a[2], env)
                else: cnt, st = P(s.L), ONE
                if cnt.const is None: raise Unknown("number of lanes %s" % show(cnt))
                if cnt.const > s.L: raise Unknown("more lanes than the vector has")
                es = s.es[base]
                return tuple([("in", base, off + st * (i * es)) for i in range(int(cnt.const))] + [("zero",)] * (s.L - int(cnt.const)))
        if t.op == "re": return ("re", s.value(t.args[0], env))
        if t.op == "load":
            base = t.args[0]; off = s.num(t.args[1], env)
            if base in s.b: return ("in", base, off)
            if off.const is None: raise Unknown("position %s" % show(off))
            k = (base, int(off.const))
            if k not in s.arr: raise Unknown("entry %d of a temporary array is read before it is written" % (k[1]))
            return s.arr[k]
        raise Unknown("value %s" % show(P(v)))
    def fft(s, e, env):
        d = e.d; s.nfft += 1
        N = s.N; es = s.vs
        src, dst = d["src"], d["dst"]
        si, so = s.num(d["sin"], env).const, s.num(d["sout"], env).const
        s0, d0 = s.num(src.off, env).const, s.num(dst.off, env).const
        if None in (si, so, s0, d0): raise Unknown("strides of the transform")
        ins = []
        for i in range(N):
            k = (src.base, int(s0 + i * si * es))
            if k not in s.arr: raise Unknown("entry %d of the input is not set" % i)
            ins.append(s.arr[k])
        dr = d["dir"] if isinstance(d["dir"], int) else P(d["dir"]).const
        for i in range(N):
            s.arr[(dst.base, int(d0 + i * so * es))] = tuple(("F", i, dr, tuple(x[j] for x in ins)) for j in range(s.L))
        s.root = (d["root"], d["node"])

def es_of(t): return (4 if "float" in t else 8) * (2 if "complex" in t else 1)
def expected(kind, N, i, dr, col):
    """entry i of the transform of the column"""
    return ("F", i, dr, col)
def check(ctx, p, f, Ns, counts):
    """every line q < num_ffts: entry i of the result = entry i of the transform of column q, at the planned position, nothing else written"""
    ta = p.recs[f["cls"]]["ta"]; prec = "float" if "float" in ta[0] else "double"; w = 4 if prec == "float" else 8
    types = [p.types[q["t"]]["s"] for q in f["params"]]
    cx = ["complex" in t for t in types]
    kind = "c2c" if len(cx) == 1 else "c2r" if cx[0] else "r2c"
    dr = 1 if ta[1] == "1" else 0
    name = "stock plan %s %s, %s" % (kind, "backward" if dr else "forward", prec)
    loc = (f["file"], f["line"])
    m, par, bases = trace(p, f)
    tmp = set(e.e.d["size"] for e in flatten(m.rec) if e.e.kind == "write" and e.e.d["mem"] not in bases)
    if not ctx.check(len(tmp) == 1, name + ": temporary arrays of vectors", "sizes %s" % sorted(tmp), loc): return m
    vs = tmp.pop(); L = vs // (2 * w)
    IN, OUT = bases[0], bases[-1]
    ei, eo = es_of(types[0]), es_of(types[-1])
    st = P(par[2])
    if kind == "c2c": di = do = P(par[3])
    elif kind == "r2c": di, do = P(par[3]), P(par[4])
    else: di, do = P(par[4]), P(par[3])
    tr = [e for e in flatten(m.built) if e.e.kind == "tree"]; nw = [e for e in flatten(m.built) if e.e.kind == "new"]
    ok = len(tr) == 1 and tr[0].g is TRUE and P(tr[0].e.d["n"]) is P(par[0])
    ctx.check(ok, name + ": the call tree is built for the length of the transform", "; ".join(repr(e)[:160] for e in tr), tr[0].e.loc if tr else loc)
    ff = [e for e in flatten(m.rec) if e.e.kind == "fft"]
    for e in ff:
        r, nd = e.e.d["root"], e.e.d["node"]
        b = tr[0].e.d["root"] if tr else None
        same = isinstance(r, Ptr) and isinstance(b, Ptr) and r.base is b.base and (r.off or ZERO) is ZERO and nd.base is r.base and (nd.off is None or nd.off is ZERO)
        ctx.check(same, name + ": executes the root of the plan's own call tree", "%s, %s" % (r, nd), e.e.loc)
    for N in Ns:
        for cnt in counts:
            s = Sim(m, [], L, bases); s.N, s.vs = N, vs; s.es = {IN: ei, OUT: eo}
            t = "%s: length %d, %d lines" % (name, N, cnt)
            env = {par[0]: P(N), par[1]: P(cnt)}
            try: s.run(m.rec, env)
            except Unknown as e:
                ctx.check(False, t, str(e), loc); continue
            nin = N // 2 + 1 if kind == "c2r" else N
            nout = N // 2 + 1 if kind == "r2c" else N
            err = None; where = loc; seen = {}
            for mem, off, sz, v, l in s.writes:
                if mem is not OUT: err, where = "writes to the input array", l; break
                if sz != eo: err, where = "writes %d bytes" % sz, l; break
                seen.setdefault(off, []).append((v, l))
            for q in range(cnt if not err else 0):
                for i in range(nout):
                    o = (do * q + st * i) * eo
                    got = seen.pop(o, None)
                    if got is None: err = "entry %d of line %d is not written" % (i, q); break
                    if len(got) != 1: err, where = "entry %d of line %d is written %d times" % (i, q, len(got)), got[1][1]; break
                    v, l = got[0]
                    if kind == "c2r":
                        if v[0] != "re": err, where = "entry %d of line %d is not the real part" % (i, q), l; break
                        v = v[1]
                    bad = self_ok(v, i, dr, [(di * q + st * j) * ei for j in range(nin)], N, kind, IN)
                    if bad: err, where = "entry %d of line %d: %s" % (i, q, bad), l; break
                if err: break
            if not err and seen:
                k = next(iter(seen)); err, where = "writes outside the planned lines (offset %s)" % show(k), seen[k][0][1]
            ctx.check(err is None, t, err, where)
    return m
def self_ok(v, i, dr, offs, N, kind, IN):
    if not v or v[0] != "F": return "holds %s" % (v,)
    if v[1] != i: return "holds entry %d of the transform" % v[1]
    if v[2] != dr: return "transformed in the wrong direction"
    for j, y in enumerate(v[3]):
        cj = False; k = j
        if kind == "c2r" and j > N // 2: k = N - j; cj = True
        while isinstance(y, tuple) and y[0] == "conj":
            y = y[1]; cj = not cj
            if kind == "c2r" and 2 * j == N: cj = False       # the middle entry of the half spectrum is real
        if cj: return "entry %d of the signal is (not) conjugated" % j
        if y[0] != "in" or y[1] is not IN: return "entry %d of the signal is %s" % (j, y[0])
        if y[2] is not offs[k]: return "entry %d of the signal is read at %s instead of %s" % (j, show(y[2]), show(offs[k]))
    return None

def check_pad(ctx, p):
    """copy_pad reads c[i*stride] for the first c_len entries and leaves the rest zero"""
    fs = [f for f in fns(p, "heffte::copy_pad") if f.get("body")]
    if len(fs) < 4: raise AnchorMissing("copy_pad")
    for f in fs:
        t = p.types[f["params"][0]["t"]]["s"]; es = es_of(t); name = "copy_pad(%s)" % t; loc = (f["file"], f["line"])
        seen = []
        def ctor(m, fn, this, a, n):
            seen.append(_val(m, a[0])); return ZERO
        m = machine(p, {S + "Complex::Complex": ctor})
        base = T("sym", "$c"); n, st = T("sym", "$n"), T("sym", "$s")
        try: call(m, f, args={0: Ptr(base, (), ZERO), 1: P(n), 2: P(st)})
        except Exception as e:
            ctx.check(False, name, "not analysed: %r" % e, loc); continue
        ws = [e for e in flatten(m.rec) if e.e.kind == "write"]
        ok = len(ws) == 1 and len(ws[0].loops) == 1 and len(seen) == 1
        others = [e for e in flatten(m.rec) if e.e.kind == "throw"]
        d = repr(ws)[:200]
        if ok:
            w = ws[0]; i, N = w.loops[0]; v = P(w.e.d["val"]).atom_term()
            x = "complex" in t; cs = es if x else 2 * es
            N0 = N.atom_term()
            ok = w.e.d["off"] is P(i) * cs and (N is P(n) or (N0 is not None and N0.op == "max0" and N0.args[0] is P(n)))
            ld = loads(v)
            ok = ok and len(ld) == 1 and ld[0].args[0] is base and P(ld[0].args[1]) is P(i) * P(st) * es
            ok = ok and isinstance(seen[0], Ptr) and (seen[0].off or ZERO) is ZERO
            lanes = m.size(f["ret"]) // cs
            for q in range(1, lanes + 1):
                e_ = {n: P(q)}
                if subst(w.g, e_) is not TRUE or any(subst(x.g, e_) is not FALSE for x in others): ok = False; d = "%d lanes are refused" % q
        ctx.check(ok, name + ": copies entry i*stride to lane i for the requested lanes", d, loc)
def loads(v):
    out = []
    def go(x):
        if isinstance(x, Poly):
            for k in x.m:
                for q, _ in k: go(dom_term(q))
        elif isinstance(x, Term):
            if x.op == "load": out.append(x); return
            for y in x.args: go(y)
    go(v); return out
