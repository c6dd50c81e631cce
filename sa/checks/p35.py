"""P35: the built-in FFT routines compute the discrete Fourier transform, in exact arithmetic."""
from harness import *
from harness import subst
from stockexec import _val
from concrete import *
TITLE = "The built-in FFT routines compute the discrete Fourier transform for every length"
TECHNIQUE = "abstract interpretation in an algebraic domain (linear combinations of array elements with roots of unity given by their phase); recursive calls by their contract, loops by closed forms"
S = "heffte::stock::"; C = S + "Complex::"
IM = T("sym", "imaginary unit")
def V(m, x):
    if isinstance(x, LV):
        k = (x.base, x.path, x.off)
        wr = getattr(m, "wr", {})
        if k in wr: return wr[k]
    x = _val(m, x)
    if isinstance(x, Sym): return P(x.t)
    if isinstance(x, GV): return m.num(gv([(c, V(m, v)) for c, v in x.alts]))
    if isinstance(x, Obj): return P(x.base) if x.base is not None else P(T("undef"))
    return P(x) if isinstance(x, (int, Poly, BD)) else P(T("undef"))
class Ker(Machine):
    """array elements written earlier in the same iteration are read back as written"""
    wr = {}
    def run_body(self, *a, **k):
        old = self.wr; self.wr = dict(old)
        try: return Machine.run_body(self, *a, **k)
        finally: self.wr = old
def algebra(calls=()):
    def put(m, this, v):
        if isinstance(this, LV):
            k = (this.base, this.path, this.off)
            if m.st.s.get(this.base) is None or this.off is not None: m.wr[k] = v
        m.write(this, v, ty=getattr(this, "ty", None))
    def ctor(m, fn, this, a, n):
        if not a: return ZERO
        if len(a) == 1: return V(m, a[0])
        return P(T("app", "cplx", *[V(m, x) for x in a]))
    def bi(op): return lambda m, fn, this, a, n: op(V(m, this), V(m, a[0]) if a else None)
    def asg(op):
        def h(m, fn, this, a, n):
            v = op(V(m, this), V(m, a[0])); put(m, this, v); return v
        return h
    def om(m, fn, this, a, n): return P(T("cis", P(_val(m, a[0])), P(_val(m, a[1])), P(_val(m, a[2]))))
    def mul(x, y): return x * y
    I = P(IM)
    H = {C + "Complex": ctor, C + "operator=": asg(lambda x, y: y), C + "operator+": bi(lambda x, y: x + y), C + "operator-": bi(lambda x, y: x - y if y is not None else -x), C + "operator*": bi(mul),
         C + "operator/": bi(lambda x, y: P(T("app", "div", x, y))), C + "operator+=": asg(lambda x, y: x + y), C + "operator-=": asg(lambda x, y: x - y), C + "operator*=": asg(mul),
         C + "fmadd": lambda m, fn, this, a, n: V(m, this) * V(m, a[0]) + V(m, a[1]), C + "fmsub": lambda m, fn, this, a, n: V(m, this) * V(m, a[0]) - V(m, a[1]),
         C + "__mul_i": bi(lambda x, y: I * x), C + "__mul_neg_i": bi(lambda x, y: -I * x), S + "omega::get": om}
    for q in calls:
        def h(m, fn, this, a, n, q=q):
            m.effect("fft", name=q, args=[V(m, x) if isinstance(x, LV) and "Complex" in m.ty(fn["params"][i]["t"]).get("s", "") + str(m.ty(m.ty(fn["params"][i]["t"])["el"]).get("s", "") if m.ty(fn["params"][i]["t"])["k"] == "ref" else "") else _val(m, x) for i, x in enumerate(a)], node=this)
            m.wr.clear(); return UNDEF
        H[S + q] = h
    return H

class Odd(Exception): pass
class Phase:
    """values as {data element: {phase numerator (denominator N): coefficient}}"""
    def __init__(s, N, fwd, names=None): s.N = N; s.sg = -1 if fwd else 1; s.fwd = fwd; s.names = names or {}
    def root(s, t):
        """phase numerator of a root of unity, None for data"""
        if t in s.names: return s.names[t] * s.N
        if t.op == "cis":
            d = t.args[2]
            if not d.is_const: raise Odd("direction " + show(d))
            q = P(t.args[1])
            if q is not s.N: raise Odd("root of unity of order " + show(q))
            return P(t.args[0]) if (d.const == s.D) else -P(t.args[0])
        if t is IM: return s.N * Fraction(s.sg, 4)
        if t.op == "app" and t.args[0] == "cplx":
            re, im = t.args[1:]
            if re == ONE and im == ZERO: return ZERO
            r3 = Fraction(1, 2)
            if re.is_const and re.const == Fraction(-1, 2):
                for sg in (1, -1):
                    if (im * 2 * sg) is P(T("sqrt", P(3))) : return s.N * Fraction(sg * s.sg, 3)
            raise Odd("constant %s" % show(P(t)))
        if t.op == "pow":
            b = s.mono(P(t.args[0]))
            if b[0]: raise Odd("power of data")
            return b[1] * P(t.args[1])
        return None
    def mono(s, x):
        if len(x.m) != 1: raise Odd("power of a sum")
        (k, c), = x.m.items()
        return s.one(k, c)
    def one(s, k, c):
        data = []; ph = ZERO
        for i, e in k:
            t = Term._byid[i]; r = s.root(t)
            if r is None: data.append((t, e))
            else: ph = ph + r * e
        c = Fraction(c)
        if c < 0: ph = ph + s.N * Fraction(1, 2); c = -c
        if not data and c != 1 or data and c != 1: raise Odd("coefficient %s" % c)
        return tuple(data), ph
    def same(s, a, b):
        d = a - b
        if d is ZERO: return True
        q = exact_div(d, s.N)
        return q is not None and all(Fraction(c).denominator == 1 for c in q.m.values())
    def lin(s, x):
        out = []
        for k, c in x.m.items(): out.append(s.one(k, c))
        return out
def combo(ph, x, want):
    """x is the sum over want = [(element term, phase numerator)]; returns an error text or None"""
    try: got = ph.lin(x)
    except Odd as e: return str(e)
    got = list(got)
    for t, p in want:
        hit = [g for g in got if len(g[0]) == 1 and g[0][0] == (t, 1)]
        if not hit: return "%s does not contribute" % show(t)
        if not ph.same(hit[0][1], p): return "%s is multiplied by the root of unity with phase %s/N instead of %s/N" % (show(t), show(hit[0][1]), show(p))
        got.remove(hit[0])
    if got: return "further contribution of %s" % [show(t) for t, e in got[0][0]]
    return None
from fractions import Fraction
def cell(b, i, st, es): return T("load", b, P(i) * P(st) * es, es)
def index_of(off, st, es): return exact_div(off, P(st) * es)

def trace(p, f, args, calls, facts=()):
    m = Ker(p, algebra(calls), facts); m.wr = {}
    m.frames.append(Frame({"file": "entry", "q": "entry", "ret": 0, "k": "func"}, None))
    r = call(m, f, args=args)
    fl = flatten(m.rec); last = {}
    for e in fl:      # an element written several times in one iteration has the last value
        if e.e.kind == "write" and e.g is TRUE: last[(show(e.e.d["mem"]), e.e.d["off"], tuple(e.loops))] = e
    fl = [e for e in fl if e.e.kind != "write" or e.g is not TRUE or last[(show(e.e.d["mem"]), e.e.d["off"], tuple(e.loops))] is e]
    return [(m, r, fl)]
def fns(p, name):
    fs = [f for f in p.fns.values() if f["q"] == S + name and f.get("body") is not None]
    if not fs: raise AnchorMissing(S + name)
    return fs
def label(p, f):
    t = p.types[f["params"][1]["t"]]
    for x in f["params"]:
        y = p.types[x["t"]]
        if y["k"] == "ptr" and "Complex" in p.types[y["el"]].get("s", ""): return f["n"] + " (" + p.types[y["el"]]["s"].replace("heffte::stock::", "").replace(" ", "") + ")"
    return f["n"]
def elem(p, f):
    for x in f["params"]:
        y = p.types[x["t"]]
        if y["k"] == "ptr" and "Complex" in p.types[y["el"]].get("s", ""): return p.types[y["el"]]["size"]
X, Y = T("sym", "x"), T("sym", "y"); SI, SO = T("sym", "s_in"), T("sym", "s_out")
def dirs(p): return {x["n"]: x["v"] for x in p.enums["heffte::direction"]["vals"]}

def powers(ctx, p, r):
    name = "pow%d_FFT_helper" % r
    for f in fns(p, name):
        es = elem(p, f); loc = (f["file"], f["line"])
        for dn, dv in dirs(p).items():
            w = "%s, %s" % (label(p, f), dn)
            nm = {T("sym", "plus120"): Fraction(1, 3), T("sym", "minus120"): Fraction(2, 3)}
            base = {0: None, 1: Ptr(X, (), ZERO), 2: Ptr(Y, (), ZERO), 3: P(SI), 4: P(SO), 5: P(dv)}
            extra = {i: P(T("sym", ["plus120", "minus120"][i - 6])) for i in range(6, len(f["params"]))}
            # shortest length
            tr = trace(p, f, {**base, 0: P(r), **extra}, [name])
            ctx.check(len(tr) == 1, w + ": the shortest length has one behaviour", "%d" % len(tr), loc)
            m, _, fl = tr[0]; ctx.absorb(m)
            ph = Phase(P(r), dn == "forward", nm); ph.D = dv
            wr = [e for e in fl if e.e.kind == "write"]
            ctx.check(not [e for e in fl if e.e.kind == "fft"], w + ": the shortest length is not divided further", "recursive call", loc)
            outs = {}
            for e in wr:
                i = index_of(e.e.d["off"], SO, es)
                if not ctx.check(e.e.d["mem"] is Y and i is not None and i.is_const and e.g is TRUE and not e.loops, w + ": results go to the output", "%s at %s" % (show(e.e.d["mem"]), show(e.e.d["off"])), e.e.loc): continue
                outs[int(i.const)] = e
            ctx.check(sorted(outs) == list(range(r)), w + ": every output of the shortest transform is set", sorted(outs), loc)
            for q, e in outs.items():
                v = e.e.d["val"]; v = v if isinstance(v, Poly) else V(m, v)
                er = combo(ph, v, [(cell(X, j, SI, es), P(j * q)) for j in range(r)])
                ctx.check(er is None, w + ": output %d of %d" % (q, r), er, e.e.loc)
            # general length
            M = T("sym", "M"); MP = P(M)
            tr = trace(p, f, {**base, 0: MP * r, **extra}, [name], facts=[MP - 2])
            ctx.check(len(tr) == 1, w + ": one behaviour for longer lengths", "%d" % len(tr), loc)
            m, _, fl = tr[0]; ctx.absorb(m)
            ph = Phase(MP * r, dn == "forward", nm); ph.D = dv
            rec = [(i, e) for i, e in enumerate(fl) if e.e.kind == "fft"]; wr = [(i, e) for i, e in enumerate(fl) if e.e.kind == "write"]
            ctx.check(len(rec) == r and all(e.g is TRUE and not e.loops for _, e in rec) and (not wr or max([i for i, _ in rec] or [0]) < wr[0][0]), w + ": one sub-transform per residue, before the combination", "%d sub-transforms" % len(rec), loc)
            res = set()
            for _, e in rec:
                a = e.e.d["args"]
                px = index_of(a[1].off if a[1].off is not None else ZERO, SI, es); py = index_of(a[2].off if a[2].off is not None else ZERO, SO, es)
                ok = a[0] is MP and a[1].base is X and a[2].base is Y and a[3] is P(SI) * r and a[4] is P(SO) and a[5] is P(dv) and px is not None and px.is_const and py is px * MP and all(x is y for x, y in zip(a[6:], extra.values()))
                ctx.check(ok, w + ": sub-transforms take every %s element and fill one block" % {2: "second", 3: "third", 4: "fourth"}[r], [show(x) if isinstance(x, Poly) else repr(x) for x in a], e.e.loc)
                if ok: res.add(int(px.const))
            ctx.check(res == set(range(r)), w + ": the sub-transforms cover all residues", sorted(res), loc)
            cover = {}
            for _, e in wr:
                i = index_of(e.e.d["off"], SO, es)
                if not ctx.check(e.e.d["mem"] is Y and i is not None and e.g is TRUE and len(e.loops) <= 1, w + ": combination writes the output", show(e.e.d["off"]), e.e.loc): continue
                q = None
                for c in range(r):
                    k = i - MP * c
                    if M not in deps(k): q = c; break
                if not ctx.check(q is not None, w + ": combination writes the output", show(i), e.e.loc): continue
                k = i - MP * q
                v = e.e.d["val"]; v = v if isinstance(v, Poly) else V(m, v)
                er = combo(ph, v, [(cell(Y, k + MP * j, SO, es), j * (k + MP * q)) for j in range(r)])
                ctx.check(er is None, w + ": combination for block %d" % q, er, e.e.loc)
                if e.loops:
                    n, cnt = e.loops[0]
                    lo = subst(k, {n: ZERO})
                    ctx.check(lo.is_const and k - P(n) is lo, w + ": combination runs over consecutive outputs", show(k), e.e.loc)
                    cover.setdefault(q, []).append((lo, lo + cnt))
                else: cover.setdefault(q, []).append((k, k + 1))
            for q in range(r):
                at = ZERO
                for lo, hi in sorted(cover.get(q, []), key=lambda c: c[0].const if c[0].is_const else 10 ** 9):
                    if lo is at: at = hi
                    else: at = None; break
                ctx.check(at is MP, w + ": block %d is combined completely" % q, [(show(a), show(b)) for a, b in cover.get(q, [])], loc)

def sums(v):
    """(rest, [(coefficient, bound variable, body, count)])"""
    rest = ZERO; out = []
    for k, c in v.m.items():
        mono = Poly({k: c}); t = [Term._byid[i] for i, e in k if Term._byid[i].op == "psum" and e == 1]
        if len(t) == 1:
            co = exact_div(mono, P(t[0])); out.append((co, t[0]))
        else: rest = rest + mono
    return rest, out
def dft(ctx, p):
    for f in fns(p, "DFT_helper"):
        es = elem(p, f); loc = (f["file"], f["line"]); N = T("sym", "size"); NP = P(N)
        for dn, dv in dirs(p).items():
            w = "%s, %s" % (label(p, f), dn)
            base = {1: Ptr(X, (), ZERO), 2: Ptr(Y, (), ZERO), 3: P(SI), 4: P(SO), 5: P(dv)}
            tr = trace(p, f, {**base, 0: P(1)}, [])
            fl = tr[0][2]
            ctx.check(len(fl) == 1 and fl[0].e.kind == "write" and fl[0].e.d["mem"] is Y and fl[0].e.d["off"] is ZERO and V(tr[0][0], fl[0].e.d["val"]) is P(cell(X, 0, SI, es)), w + ": length one is the identity", len(fl), loc)
            tr = trace(p, f, {**base, 0: NP}, [], facts=[NP - 2])
            ctx.check(len(tr) == 1, w + ": one behaviour for longer lengths", "%d" % len(tr), loc)
            m, _, fl = tr[0]; ctx.absorb(m)
            ph = Phase(NP, dn == "forward"); ph.D = dv
            cover = []
            for e in fl:
                i = index_of(e.e.d["off"], SO, es)
                if not ctx.check(e.e.kind == "write" and e.e.d["mem"] is Y and i is not None and e.g is TRUE and len(e.loops) <= 1, w + ": results go to the output", e.e.kind, e.e.loc): continue
                v = e.e.d["val"]; v = v if isinstance(v, Poly) else V(m, v)
                if e.loops:
                    n, cnt = e.loops[0]
                    lo = subst(i, {n: ZERO}); cover.append((lo, lo + cnt))
                    ctx.check(i - P(n) is lo and lo.is_const, w + ": outputs are consecutive", show(i), e.e.loc)
                    h = fresh_index("h"); variants = [{n: ZERO}, {n: P(h) + 1}]
                else: cover.append((i, i + 1)); variants = [{}]
                for sb in variants:
                    k = subst(i, sb) if sb else i; x = subst(v, sb) if sb else v
                    mm = machine(p, facts=[NP - 2])
                    x = mm.simp(x) if isinstance(x, Poly) else x
                    er = summed(ph, x, k, SI, es, NP)
                    ctx.check(er is None, w + ": output is the sum over all inputs times its root of unity", er, e.e.loc)
            at = ZERO
            for lo, hi in sorted(cover, key=lambda c: c[0].const if c[0].is_const else 10 ** 9): at = hi if lo is at else None
            ctx.check(at is NP, w + ": every output is set", [(show(a), show(b)) for a, b in cover], loc)
def summed(ph, v, k, st, es, N):
    rest, ss = sums(v)
    if not ss: return "no sum over the input: " + show(v)[:200]
    j = T("sym", "j"); g = ZERO
    for co, t in ss:
        var, body, cnt = t.args
        if P(cnt) is not N: return "sum over %s elements" % show(P(cnt))
        g = g + co * subst(P(body), {var: P(j)})
    try:
        l = ph.lin(g)
        if len(l) != 1: return "sum of %d terms %s" % (len(l), show(g))
        t = l[0][0][0][0]
        for sh in (0, 1):
            if t is cell(X, P(j) + sh, st, es):
                if combo(ph, g, [(t, k * (P(j) + sh))]): return combo(ph, g, [(t, k * (P(j) + sh))])
                want = ZERO
                got = ph.lin(rest)
                if sh == 0: return None if not got else "further contributions"
                # shifted: the element 0 is added, the element N is taken away
                need = [(cell(X, 0, st, es), ZERO), (cell(X, N, st, es), k * N + N * Fraction(1, 2))]
                return combo(ph, rest, need)
        return "sum over %s" % show(t)
    except Odd as e: return str(e)

def mem(x): return ".".join([show(x.base)] + [show(y) if isinstance(y, Poly) else y for y in x.path])
def composite(ctx, p):
    for f in fns(p, "composite_FFT"):
        es = elem(p, f); loc = (f["file"], f["line"])
        for dn, dv in dirs(p).items():
            w = "%s, %s" % (label(p, f), dn)
            R = T("sym", "sRoot")
            tr = trace(p, f, {0: Ptr(X, (), ZERO), 1: Ptr(Y, (), ZERO), 2: P(SI), 3: P(SO), 4: Ptr(R, (), ZERO), 5: P(dv)}, ["Fourier_Transform::operator()"])
            ctx.check(len(tr) >= 1, w + ": analysed", "", loc)
            for m, _, fl in tr:
                ctx.absorb(m)
                ff = [e for e in fl if e.e.kind == "fft"]; ww = [e for e in fl if e.e.kind == "write"]
                if not ctx.check(len(ff) == 2 and all(len(e.loops) == 1 and e.g is TRUE for e in ff), w + ": two rounds of sub-transforms", "%d" % len(ff), loc): continue
                nes = p.types[p.types[f["params"][4]["t"]]["el"]]["size"]
                def child(s): return Ptr(R, (), P(T("fld", R, s)) * nes)
                def size(s): return P(T("fld", T("load", R, P(T("fld", R, s)) * nes, 0), "sz"))
                first_, second = ff
                def node(e):
                    a = e.e.d["args"][4]
                    for s in ("left", "right"):
                        if isinstance(a, Ptr) and a.base is R and a.off is child(s).off: return s
                    return None
                s1, s2 = node(first_), node(second)
                if not ctx.check({s1, s2} == {"left", "right"}, w + ": each part is used once", "%s, %s" % (s1, s2), loc): continue
                for e, s in ((first_, s1), (second, s2)):
                    ctx.check(isinstance(e.e.d["node"], LV) and ("sRoot.%s," % s) in repr(e.e.d["node"]), w + ": the routine of a part works on that part", repr(e.e.d["node"]), e.e.loc)
                    ctx.check(e.e.d["args"][5] is P(dv), w + ": the parts run in the same direction", show(e.e.d["args"][5]), e.e.loc)
                n1 = size(s2); n2 = size(s1)     # first round: n1 transforms of length n2
                j, c1 = first_.loops[0]; a = first_.e.d["args"]
                ok = c1 is n1 and a[0].base is X and a[0].off is P(j) * P(SI) * es and a[1].base not in (X, Y) and a[1].off is n2 * P(j) * es and a[2] is n1 * P(SI) and a[3] is P(1)
                ctx.check(ok, w + ": first round takes every N1-th element, row by row", [show(x) if isinstance(x, Poly) else repr(x) for x in a[:4]] + [show(c1)], first_.e.loc)
                k, c2 = second.loops[0]; b = second.e.d["args"]
                ok = c2 is n2 and mem(b[0]) == mem(a[1]) and b[0].off is P(k) * es and b[1].base is Y and b[1].off is P(k) * P(SO) * es and b[2] is n2 and b[3] is n2 * P(SO)
                ctx.check(ok, w + ": second round takes the columns", [show(x) if isinstance(x, Poly) else repr(x) for x in b[:4]] + [show(c2)], second.e.loc)
                ctx.check(fl.index(first_) < fl.index(second) and all(fl.index(first_) < fl.index(e) < fl.index(second) for e in ww), w + ": roots of unity are applied between the rounds", "", loc)
                ph = Phase(P(T("fld", R, "sz")), dn == "forward"); ph.D = dv
                for e in ww:
                    i = exact_div(e.e.d["off"], P(es)); lv = [x[0] for x in e.loops]
                    v = e.e.d["val"]; v = v if isinstance(v, Poly) else V(m, v)
                    if not ctx.check(len(lv) == 2 and show(e.e.d["mem"]) == mem(a[1]) and lv[0] is j, w + ": the roots of unity are applied to the scratch", show(e.e.d["mem"]), e.e.loc): continue
                    kk = i - n2 * P(j) if i is not None else None
                    lo = subst(kk, {lv[1]: ZERO}) if kk is not None else None
                    ctx.check(kk is not None and kk - P(lv[1]) is lo and lo.is_const and lo + e.loops[1][1] is n2 and lo.const in (0, 1), w + ": all elements of a row get their root of unity", "element %s for %s values" % (show(kk) if kk is not None else None, show(e.loops[1][1])), e.e.loc)
                    gs = [t for t in bd_support(e.g)]
                    okg = e.g is TRUE or len(gs) == 1 and (gs[0].op == "ge" and gs[0].args[0] is P(j) - 1 and e.g.hi is TRUE and e.g.lo is FALSE or gs[0].op == "eq" and P(j) in (gs[0].args[0], -gs[0].args[0]) and e.g.hi is FALSE and e.g.lo is TRUE)
                    ctx.check(okg, w + ": all rows but the first get their root of unity", show(e.g), e.e.loc)
                    if kk is None: continue
                    er = combo(ph, v, [(T("load", e.e.d["mem"], i * es, es), P(j) * kk)])
                    ctx.check(er is None, w + ": the root of unity of row j, element k has phase jk/N", er, e.e.loc)
                ctx.check(len(ww) == 1, w + ": roots of unity are applied once", "%d places" % len(ww), loc)

def wrappers(ctx, p):
    """the routines behind the dispatch pass length, arrays and strides on"""
    for name, helper in (("pow2_FFT", "pow2_FFT_helper"), ("pow3_FFT", "pow3_FFT_helper"), ("pow4_FFT", "pow4_FFT_helper"), ("DFT", "DFT_helper")):
        for f in fns(p, name):
            loc = (f["file"], f["line"])
            for dn, dv in dirs(p).items():
                w = "%s, %s" % (label(p, f), dn); R = T("sym", "sRoot")
                tr = trace(p, f, {0: Ptr(X, (), ZERO), 1: Ptr(Y, (), ZERO), 2: P(SI), 3: P(SO), 4: Ptr(R, (), ZERO), 5: P(dv)}, [helper])
                for m, _, fl in tr:
                    ctx.absorb(m)
                    ff = [e for e in fl if e.e.kind == "fft"]
                    if not ctx.check(len(ff) == 1 and len(fl) == 1 and ff[0].g is TRUE, w + ": one transform", "%d" % len(ff), loc): continue
                    a = ff[0].e.d["args"]
                    ok = a[0] is P(T("fld", R, "sz")) and all(isinstance(a[i], Ptr) and a[i].base is b and (a[i].off is None or a[i].off is ZERO) for i, b in ((1, X), (2, Y))) and a[3] is P(SI) and a[4] is P(SO) and a[5] is P(dv)
                    ctx.check(ok, w + ": works on the arrays, strides and length of the node", [show(x) if isinstance(x, Poly) else repr(x) for x in a], loc)
                    if len(a) > 6:
                        ph = Phase(P(3), dn == "forward"); ph.D = dv
                        for x, want, t in ((a[6], 1, "first"), (a[7], 2, "second")):
                            try: got = ph.mono(x)[1]; er = None if ph.same(got, P(want)) else "phase %s/3" % show(got)
                            except Odd as ex: er = str(ex)
                            ctx.check(er is None, w + ": the %s cube root of unity" % t, er, loc)
    for f in p.fns.values():
        if f["q"] != S + "omega::get" and not (f["n"] == "get" and "stock::omega" in f["q"]) or f.get("body") is None: continue
        loc = (f["file"], f["line"]); H = algebra(); H.pop(S + "omega::get")
        for dn, dv in dirs(p).items():
            m = machine(p, hooks=H); m.wr = {}
            r = V(m, call(m, f, args={2: P(dv)})); ctx.absorb(m)
            t = [Term._byid[i] for k in r.m for i, _ in k] if isinstance(r, Poly) else []
            w = "root of unity, " + dn
            if not ctx.check(len(t) == 1 and t[0].op == "app" and t[0].args[0] == "cplx", w + ": is a complex number", show(r), loc): continue
            re, im = t[0].args[1:]
            cs = [x for k in re.m for x in [Term._byid[i] for i, _ in k]]
            ok = len(cs) == 1 and cs[0].op == "cos" and re is P(cs[0])
            th = P(cs[0].args[0]) if ok else None
            ctx.check(ok and im is P(T("sin", th)) * (-1 if dn == "forward" else 1), w + ": cosine and signed sine of one angle", "%s, %s" % (show(re), show(im)), loc)
            if ok:
                q = exact_div(th, P(T("sym", "power")) * P(T("inv", P(T("sym", "N")))))
                ctx.check(q is not None and q.is_const and abs(float(q.const) - 6.283185307179586) < 1e-12, w + ": the angle is 2 pi power / N", show(th), loc)

def dispatch(ctx, p):
    E = {x["n"]: x["v"] for x in p.enums[S + "fft_type"]["vals"]}
    names = {"pow2": "pow2_FFT", "pow3": "pow3_FFT", "pow4": "pow4_FFT", "composite": "composite_FFT", "discrete": "DFT", "rader": "rader_FFT"}
    n = 0
    for f in p.fns.values():
        if f["n"] != "operator()" or f.get("cls") is None or normq(p.recs[f["cls"]]["q"]) != S + "Fourier_Transform" or f.get("body") is None: continue
        n += 1
        loc = (f["file"], f["line"])
        for k, v in E.items():
            H = {}
            for q in names.values():
                def h(m, fn, this, a, nd, q=q): m.effect("fft", name=q, args=[_val(m, x) for x in a]); return UNDEF
                H[S + q] = h
            m = machine(p, hooks=H)
            this = this_obj(m, f["cls"]); m.st.s[this.base] = m.st.s[this.base].with_("type", P(v))
            call(m, f, this=this); ctx.absorb(m)
            fl = flatten(m.rec); ff = [e for e in fl if e.e.kind == "fft"]
            w = "dispatch of %s (%s)" % (k, p.recs[f["cls"]]["s"].replace("heffte::stock::", ""))
            if not ctx.check(len(ff) == 1 and ff[0].e.d["name"] == names.get(k) and ff[0].g is TRUE and not [e for e in fl if e.e.kind == "throw"], w + ": its routine is called", [e.e.d.get("name", e.e.kind) for e in fl], loc): continue
            a = ff[0].e.d["args"]; want = [x["n"] for x in f["params"]]
            got = [show(P(x)) if isinstance(x, (Poly, int, BD)) else repr(x).lstrip("&").split("+")[0] for x in a]
            ctx.check(got[:6] == want[:6] and (k != "rader" or got[6:] == ["this.root", "this.root_inv"]), w + ": with all its arguments", got, loc)
    if not n: raise AnchorMissing("Fourier_Transform::operator()")

# ------------------------------------------------ prime lengths: Rader's algorithm, interpreted for small primes
import cmath
class Small(Enum):
    """all loops of a small instance are unrolled; array elements are read back as written"""
    wr = {}
def number(x, D, fwd):
    """{data element: complex coefficient} of a linear form with roots of unity"""
    out = {}
    def const(t):
        if t.op == "cis":
            a, N, d = t.args
            if not (a.is_const and N.is_const and d.is_const): raise Odd("root of unity %s" % show(P(t)))
            return cmath.exp((-1 if (d.const == D) == fwd else 1) * 2j * cmath.pi * float(Fraction(a.const) / Fraction(N.const)))
        if t.op == "app" and t.args[0] == "cplx" and all(q.is_const for q in t.args[1:3]): return complex(float(t.args[1].const), float(t.args[2].const))
        return None
    for k, c in x.m.items():
        v = complex(float(c)); data = None
        for i, e in k:
            t = Term._byid[i]
            if t.op == "app" and t.args[0] == "div":
                if e != 1 or not t.args[2].is_const: raise Odd("quotient")
                s = number(t.args[1], D, fwd)
                if data is not None: raise Odd("product of data")
                data = {n: y / float(t.args[2].const) for n, y in s.items()}
                continue
            y = const(t)
            if y is not None: v *= y ** e; continue
            if data is not None or e != 1: raise Odd("product of data")
            data = {t: 1}
        for n, y in (data if data is not None else {None: 1}).items(): out[n] = out.get(n, 0) + v * y
    return out
def rader(ctx, p, primes, limit):
    E1 = Small
    def one(name, *args):
        f = fns(p, name)[0]; out = []
        for m, r in enum(p, lambda m: call(m, f, args=dict(enumerate(map(P, args)))), limit=2000): out.append((m, r))
        if len(out) != 1 or not isinstance(out[0][1], Poly) or not out[0][1].is_const: raise AnchorMissing("%s%s has no determined value" % (name, args))
        ctx.absorb(out[0][0])
        return int(out[0][1].const), (f["file"], f["line"])
    isp = lambda n: n > 1 and all(n % k for k in range(2, int(n ** 0.5) + 1))
    root = {}
    for q in [n for n in range(5, limit) if isp(n)]:
        a, loc = one("primeRoot", q); b, loc2 = one("modPow", a, q - 2, q)
        root[q] = a, b
        s = 1; seen = set()
        for _ in range(q - 1): s = s * a % q; seen.add(s)
        ctx.check(len(seen) == q - 1, "primeRoot(%d) is a primitive root" % q, "%d has order %d" % (a, len(seen)), loc)
        ctx.check(a * b % q == 1, "modPow(%d, %d, %d) is the inverse" % (a, q - 2, q), "%d" % b, loc2)
    for f in fns(p, "rader_FFT"):
        es = elem(p, f); loc = (f["file"], f["line"])
        rec = p.types[f["params"][4]["t"]]; rid = p.types[rec["el"]]["rec"]
        for q in primes:
            for dn, dv in dirs(p).items():
                w = "%s, %s, length %d" % (label(p, f), dn, q)
                g = next((c for c in range(2, q) if len({pow(c, k, q) for k in range(q - 1)}) == q - 1)); gi = pow(g, q - 2, q)
                Z = T("sym", "z"); NODE = T("sym", "node")
                H = algebra()
                def V2(m, x): return V(m, x)
                subs = []
                def fft(m, fn, this, a, nd):
                    px, py, si, so, node, d = [(_val(m, x) if not isinstance(x, Ptr) else x) for x in a[:6]]
                    n = q - 1; subs.append(d)
                    if not (isinstance(px, Ptr) and isinstance(py, Ptr)): raise Odd("arguments of the sub-transform")
                    o = lambda b, i, st: (b.base, b.path, (b.off if b.off is not None else ZERO) + P(i) * st * es)
                    src = [m.wr.get(o(px, i, P(si)), P(T("load", px.base, o(px, i, P(si))[2], es))) for i in range(n)]
                    for k in range(n):
                        v = ZERO
                        for i in range(n): v = v + src[i] * P(T("cis", P(i * k % n), P(n), P(d)))
                        m.wr[o(py, k, P(so))] = v
                    return UNDEF
                H[S + "Fourier_Transform::operator()"] = fft
                def body(m):
                    m.wr = {}
                    node = Obj(rid, {}, T("sym", "node0"))
                    ws = m.objfield(node, "workspace")
                    node = node.with_("sz", P(q)).with_("left", ONE).with_("right", ONE).with_("workspace", VFlat(getattr(ws, "et", None), es, P(q), Z))
                    m.st.s[NODE] = VElems(rec["el"], p.types[rec["el"]]["size"], [node, Obj(rid, {}, T("sym", "node1"))])
                    return call(m, f, args={0: Ptr(X, (), ZERO), 1: Ptr(Y, (), ZERO), 2: P(SI), 3: P(SO), 4: Ptr(NODE, (), ZERO), 5: P(dv), 6: P(g), 7: P(gi)})
                try: runs = list(enum(p, body, H, limit=50))
                except Odd as e: ctx.check(False, w + ": linear in the input", str(e), loc); continue
                ctx.check(len(runs) == 1, w + ": one behaviour", "%d" % len(runs), loc)
                m = runs[0][0]; ctx.absorb(m)
                worst = None
                try:
                    for k in range(q):
                        v = m.wr.get((Y, (), P(k) * P(SO) * es))
                        if v is None: worst = "output %d is not written" % k; break
                        c = number(v, dv, dn == "forward")
                        want = {T("load", X, P(n) * P(SI) * es, es): cmath.exp((-1 if dn == "forward" else 1) * 2j * cmath.pi * n * k / q) for n in range(q)}
                        d = [show(P(t)) if t is not None else "constant" for t in set(c) | set(want) if abs(c.get(t, 0) - want.get(t, 0)) > 1e-9]
                        if d: worst = "output %d: wrong coefficient of %s" % (k, ", ".join(sorted(d)[:3])); break
                    extra = [k for k in m.wr if k[0] is Y and k[2] not in [P(i) * P(SO) * es for i in range(q)] or k[0] is Z and k[2] not in [P(i) * es for i in range(q)] or k[0] is X]
                    if worst is None and extra: worst = "writes outside the output or the scratch: %s" % show(extra[0][2])
                except Odd as e: worst = str(e)
                ctx.check(worst is None, w + ": every output is the transform of the input", worst, loc)
                ctx.check(len(subs) == 2, w + ": two sub-transforms", len(subs), loc)

def run(ctx):
    p = program("int")
    ctx.rules = ["each routine writes, for every output k, the sum over all inputs n of input n times the root of unity with phase nk/N (sign by direction)", "recursive routines: sub-transforms by their contract on disjoint blocks, combination over every output of every block",
                 "composite lengths: two rounds of sub-transforms with the roots of unity of phase jk/N between them", "the Rader routine, unrolled for small primes with symbolic data, is the transform as a linear form; primeRoot is a primitive root and modPow its inverse", "the dispatch calls the routine of the node type with its arguments; omega is cos and signed sin of 2 pi power / N"]
    ctx.assumptions = ["exact arithmetic (rounding is not considered)", "the vector arithmetic of stock::Complex computes complex sums and products lane by lane", "input and output arrays do not overlap", "the Rader routine (prime lengths above 100000) is interpreted for small primes only"]
    for r in (2, 3, 4): powers(ctx, p, r)
    dft(ctx, p); composite(ctx, p); wrappers(ctx, p); dispatch(ctx, p)
    rader(ctx, p, (5, 7) if ctx.tier != "thorough" else (5, 7, 11), 60 if ctx.tier != "thorough" else 200)
