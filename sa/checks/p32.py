"""P32: the processor grid search."""
from harness import *
from concrete import *
from cases import mark_nonneg
import itertools
from fractions import Fraction
TITLE = "The processor grid search returns the best-balanced grid"
TECHNIQUE = "abstract interpretation of the grid search for each rank count over symbolic world sizes, all outcomes of the surface comparisons; the optimality of the chosen grid follows from the recorded comparisons by transitivity"
LEVEL = "bounded"
NOTE = "rank counts up to a bound; world sizes unbounded"
Q = "heffte::proc_setup_min_surface"
BIG = 2 ** 26

# ------------------------------------------------ std::valarray as a value: a fixed sequence of numbers
def val(m, x):
    if isinstance(x, (LV, MLV)): x = m.read(x)
    if isinstance(x, Ptr): x = m.getp(m.st, x.base, x.path)
    return x
def seq(m, x):
    v = val(m, x)
    if isinstance(v, VElems): return v
    raise AnchorMissing("valarray operand %s" % (v,))
def binop(op):
    def h(m, fn, this, a, node):
        if this is not None: a = [this] + list(a)
        x, y = [val(m, z) for z in a[:2]]
        if not isinstance(x, VElems) and not isinstance(y, VElems): return NotImplemented
        n = len((x if isinstance(x, VElems) else y).el)
        r = x if isinstance(x, VElems) else y
        X = x.el if isinstance(x, VElems) else [x] * n; Y = y.el if isinstance(y, VElems) else [y] * n
        return VElems(r.et, r.es, [op(p, q) for p, q in zip(X, Y)])
    return h
def compound(op):
    def h(m, fn, this, a, node):
        m.write(this, binop(op)(m, fn, None, [this] + list(a), node)); return this
    return h
def ctor(m, n, fn, a):
    v = [val(m, x) for x in a]
    if len(v) == 1 and isinstance(v[0], VElems): return v[0]
    if len(v) == 1 and isinstance(v[0], Poly) and v[0].is_const: return VElems(None, 4, [ZERO] * int(v[0].const))
    if len(v) == 2 and isinstance(v[1], Poly) and v[1].is_const: return VElems(None, 4, [v[0]] * int(v[1].const))
    if not v: return VElems(None, 4, [])
    raise AnchorMissing("valarray constructor")
def shift(cyclic):
    def h(m, fn, this, a, node):
        s = seq(m, this); k = int(m.num(val(m, a[0])).const); n = len(s.el)
        return VElems(s.et, s.es, [s.el[(i + k) % n] if cyclic or 0 <= i + k < n else ZERO for i in range(n)])
    return h
def fold(op):
    def h(m, fn, this, a, node):
        s = seq(m, this).el; r = s[0]
        for x in s[1:]: r = op(r, x)
        return r
    return h
def index(m, fn, this, a, node):
    i = m.num(val(m, a[0])); s = seq(m, this)
    if m.ty(fn["ret"])["k"] == "ref": return m.index(this, i, s.et)
    return s.el[int(i.const)]
def assign(m, fn, this, a, node): m.write(this, val(m, a[0])); return this
MUL = lambda x, y: x * y
H = {"std::valarray::ctor": ctor, "std::valarray::operator=": assign, "std::valarray::operator[]": index, "std::_Expr::operator[]": index,
     "std::operator/": binop(fdiv), "std::operator*": binop(MUL), "std::operator+": binop(lambda x, y: x + y), "std::operator-": binop(lambda x, y: x - y),
     "std::valarray::operator/=": compound(fdiv), "std::valarray::operator*=": compound(MUL), "std::valarray::operator+=": compound(lambda x, y: x + y)}
for c in ("std::valarray", "std::_Expr"):
    H[c + "::cshift"] = shift(True); H[c + "::shift"] = shift(False); H[c + "::sum"] = fold(lambda x, y: x + y)
    H[c + "::size"] = lambda m, fn, this, a, node: P(len(seq(m, this).el))

def follows(D, q):
    """D >= 0 from q >= 0: D is a positive multiple of q plus a constant that is not negative (D is an integer)"""
    k = [x for x in q.m if x != ()]
    if not k or k[0] not in D.m: return False
    c = Fraction(D.m[k[0]]) / Fraction(q.m[k[0]])
    r = D - q * c
    return c > 0 and r.is_const and r.const > -1
def surface(s, g):
    q = [fdiv(x, P(k)) for x, k in zip(s, g)]
    return q[0] * q[1] + q[1] * q[2] + q[2] * q[0]
def rule(a):
    """the surfaces are representable: less than the largest value of the type"""
    if a.op != "ge": return None
    c = a.args[0].m.get((), 0)
    return c > 0 if abs(c) >= BIG else None
def grids(n): return [(i, j, n // (i * j)) for i in range(1, n + 1) if n % i == 0 for j in range(1, n // i + 1) if (n // i) % j == 0]

def one(ctx, p, f, n, caps, tag):
    """caps[d]: the exact size in direction d, or None for any size >= n"""
    s = [P(c) if c is not None else P(n) + P(T("extra", d)) for d, c in enumerate(caps)]
    fit = [g for g in grids(n) if all(c is None or g[d] <= c for d, c in enumerate(caps))]
    if not fit: return 0
    S = {g: surface(s, g) for g in fit}
    def run(m):
        w = T("sym", "world"); m.st.s[w] = m.sym(f["params"][0]["t"], w)
        for name, x in (("size", list(s)), ("low", [ZERO] * 3), ("high", [y - 1 for y in s])):
            v = m.objfield(m.st.s[w], name)
            m.setp(m.st, w, (name,), VElems(v.et, v.es, x))
        return call(m, f, {0: m.st.s[w], 1: P(n)})
    what = "%s, %d ranks, world %s" % (tag, n, "x".join(">=%d" % n if c is None else str(c) for c in caps)); k = 0
    for m, r in enum(p, run, H, rule=rule, limit=20000):
        k += 1
        if m.st.dead: continue
        el = val(m, r); el = getattr(el, "el", None)
        g = tuple(int(x.const) for x in el) if el is not None and len(el) == 3 and all(isinstance(x, Poly) and x.is_const for x in el) else None
        if not ctx.check(g in S, what + ": the result is a factorization of the rank count that fits the world", "grid %s for the comparisons %s" % (el, show_memo(m)), (f["file"], f["line"])): return k
        facts = []
        for a, o in m.memo.items():
            if a.op == "ge": facts.append(a.args[0] if o else -a.args[0] - 1)
            elif a.op == "eq" and o: facts += [a.args[0], -a.args[0]]
        below = {g}; todo = [g]                     # grids whose surface is not smaller than the chosen one
        while todo:
            v = todo.pop()
            for u in fit:
                if u in below: continue
                D = S[u] - S[v]
                if dom.nonneg(D) or any(follows(D, q) for q in facts):
                    below.add(u); todo.append(u)
        bad = [u for u in fit if u not in below]
        if not ctx.check(not bad, what + ": no other fitting grid has a smaller surface", "chosen %s, not compared favourably with %s, comparisons %s" % (g, bad[:4], show_memo(m)), (f["file"], f["line"])): return k
    ctx.absorb(m)
    return k
def show_memo(m): return "; ".join("%s: %s" % (show(a), o) for a, o in list(m.memo.items())[:12])

def run(ctx):
    p = unit(os.path.join(VERIF, "drivers/grid.cpp"), "grid")
    fs = fns(p, Q)
    if not fs: raise AnchorMissing(Q)
    for d in range(3): mark_nonneg(T("extra", d))
    thorough = ctx.tier == "thorough"
    jobs = []
    for f in fs:
        y = p.types[f["params"][0]["t"]] if hasattr(p, "types") else None
        for n in ([1, 2, 3, 4, 5, 6, 7] if thorough else [1, 2, 3, 4, 5]):
            for caps in itertools.product([None] + list(range(1, n)), repeat=3): jobs.append((f, n, caps))
        for n in ([8, 9, 10, 11, 13] if thorough else [6, 7, 8]): jobs.append((f, n, (None, None, None)))
    tags = {f["u"] if "u" in f else id(f): "%s #%d" % (Q, i) for i, f in enumerate(fs)}
    def go(ctx, j):
        f, n, caps = j
        ctx.paths = getattr(ctx, "paths", 0)
        one(ctx, p, f, n, caps, tags[f["u"] if "u" in f else id(f)])
    jobs.sort(key=lambda j: -j[1])
    ctx.parallel(jobs, go)
    ctx.rules.append("for every outcome of the surface comparisons the returned grid is a factorization fitting the world, and surface(other) >= surface(result) for every other fitting factorization")
    ctx.assumptions.append("the surface is representable in the index type; worlds that admit no fitting factorization are outside the contract (assert)")
    ctx.notes.append("rank counts: full for 1..%d, all sizes at least the rank count for %s" % (7 if thorough else 5, "8..13" if thorough else "6..8"))
