"""Value-numbering domain: interned terms, polynomials over terms, boolean decision
diagrams over comparison atoms, and substitution / canonicalisation over both."""
from fractions import Fraction
import itertools

# ------------------------------------------------------------------ terms
class Term:
    __slots__ = ("op", "args", "id", "_deps")
    _tab = {}
    _cnt = itertools.count(1)
    def __repr__(self): return show(self)
    def __reduce__(self): return (T, (self.op,) + self.args)

def T(op, *args):
    k = (op, args)
    t = Term._tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = args; t.id = next(Term._cnt); t._deps = None
        Term._tab[k] = t
        Term._byid[t.id] = t
    return t
Term._byid = {}

_fresh = itertools.count(1)
def fresh(prefix): return T("sym", prefix, next(_fresh))
_loopn = itertools.count(1)
def fresh_index(hint="n"): return T("n", hint, next(_loopn))

# ------------------------------------------------------------------ polynomials
def _num(x):
    if isinstance(x, Fraction) and x.denominator == 1: return int(x)
    return x

class Poly:
    """immutable polynomial: monomial (sorted tuple of (term id, exp)) -> coefficient"""
    __slots__ = ("m", "_h")
    _tab = {}
    def __new__(cls, m):
        key = frozenset(m.items())
        p = cls._tab.get(key)
        if p is None:
            p = object.__new__(cls); p.m = m; p._h = hash(key)
            cls._tab[key] = p
        return p
    def __reduce__(self): return (Poly, (self.m,))
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __repr__(self): return show(self)
    @property
    def is_const(self): return not self.m or (len(self.m) == 1 and () in self.m)
    @property
    def const(self): return self.m.get((), 0)
    def cval(self):
        return self.const if self.is_const else None
    def __add__(self, o):
        o = P(o)
        if not o.m: return self
        if not self.m: return o
        r = dict(self.m)
        for k, c in o.m.items():
            v = r.get(k, 0) + c
            if v == 0: r.pop(k, None)
            else: r[k] = _num(v)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({k: -c for k, c in self.m.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) + (-self)
    def __mul__(self, o):
        o = P(o)
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = _mmul(k1, k2)
                v = r.get(k, 0) + c1 * c2
                if v == 0: r.pop(k, None)
                else: r[k] = _num(v)
        p = Poly(r)
        return p
    __rmul__ = __mul__
    def div_const(self, c):
        return Poly({k: _num(Fraction(v) / c) for k, v in self.m.items()})
    def atoms(self):
        s = set()
        for k in self.m:
            for a, e in k: s.add(a)
        return s
    def atom_term(self):
        """the term if this polynomial is exactly one atom, else None"""
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1: return Term._byid[k[0][0]]
        return None
    def linear(self):
        return all(sum(e for _, e in k) <= 1 for k in self.m)

def _mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for t, e in b:
        tt = Term._byid[t]
        if tt.op == "ind":
            d[t] = 1
        else:
            d[t] = d.get(t, 0) + e
            if d[t] == 0: del d[t]
    # inv(x) * x cancels
    for t in list(d):
        tt = Term._byid.get(t)
        if tt.op == "inv" and t in d:
            x = tt.args[0].atom_term()
            if x is not None and x.id in d:
                e = min(d[t], d[x.id])
                for y in (t, x.id):
                    d[y] -= e
                    if d[y] == 0: del d[y]
    return tuple(sorted(d.items()))

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, (int, Fraction)): return Poly({(): _num(x)}) if x != 0 else Poly({})
    if isinstance(x, Term): return Poly({((x.id, 1),): 1})
    if isinstance(x, float): return P(Fraction(x))
    if isinstance(x, BD): return bd_poly(x)
    raise TypeError("P(%r)" % (x,))
ZERO = Poly({}); ONE = Poly({(): 1})

def lead(p):
    """sign of the canonical leading non-constant monomial"""
    ks = [k for k in p.m if k]
    if not ks: return 1
    k = min(ks)
    return 1 if p.m[k] > 0 else -1

# ------------------------------------------------------------------ decision diagrams
class BD:
    __slots__ = ("v", "hi", "lo", "id", "_lits")
    _tab = {}
    _cnt = itertools.count(0)
    def __repr__(self): return show(self)
    def __reduce__(self):
        if self is TRUE: return (_bdt, ())
        if self is FALSE: return (_bdf, ())
        return (_node, (self.v, self.hi, self.lo))
def _bdt(): return TRUE
def _bdf(): return FALSE
def _mk(v, hi, lo):
    n = BD.__new__(BD); n.v = v; n.hi = hi; n.lo = lo; n.id = next(BD._cnt); n._lits = None
    return n
FALSE = _mk(None, None, None); TRUE = _mk(None, None, None)
def _node(v, hi, lo):
    if hi is lo: return hi
    k = (v, hi.id, lo.id)
    n = BD._tab.get(k)
    if n is None: n = BD._tab[k] = _mk(v, hi, lo)
    return n
_itec = {}
def bite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    k = (c.id, a.id, b.id)
    r = _itec.get(k)
    if r is not None: return r
    v = min(x.v.id for x in (c, a, b) if x.v is not None); vt = Term._byid[v]
    def co(x, s):
        if x.v is vt: return x.hi if s else x.lo
        return x
    r = _node(vt, bite(co(c, 1), co(a, 1), co(b, 1)), bite(co(c, 0), co(a, 0), co(b, 0)))
    _itec[k] = r
    return r
def band(*xs):
    r = TRUE
    for x in xs: r = bite(r, x, FALSE)
    return r
def bor(*xs):
    r = FALSE
    for x in xs: r = bite(r, TRUE, x)
    return r
def bnot(x): return bite(x, FALSE, TRUE)
def batom(t): return _node(t, TRUE, FALSE)
def implies(a, b): return band(a, bnot(b)) is FALSE
_pc = {}
def bd_poly(b):
    if b is TRUE: return ONE
    if b is FALSE: return ZERO
    r = _pc.get(b.id)
    if r is None:
        i = P(T("ind", b.v))
        r = i * bd_poly(b.hi) + (ONE - i) * bd_poly(b.lo)
        _pc[b.id] = r; _rev[r] = b
    return r
_rev = {ZERO: FALSE, ONE: TRUE}
def bd_support(b, s=None):
    s = set() if s is None else s
    seen = set()
    def go(x):
        if x.v is None or x.id in seen: return
        seen.add(x.id); s.add(x.v); go(x.hi); go(x.lo)
    go(b)
    return s
def bd_literals(b):
    """atoms forced true / false by b (b not FALSE)"""
    if b._lits is not None: return b._lits
    pos, neg = set(), set()
    def paths(x):
        # returns (pos, neg) common to all paths to TRUE or None if none
        if x is TRUE: return (frozenset(), frozenset())
        if x is FALSE: return None
        h = paths(x.hi); l = paths(x.lo)
        if h is not None: h = (h[0] | {x.v}, h[1])
        if l is not None: l = (l[0], l[1] | {x.v})
        if h is None: return l
        if l is None: return h
        return (h[0] & l[0], h[1] & l[1])
    b._lits = paths(b) or (frozenset(), frozenset())
    return b._lits

# ------------------------------------------------------------------ comparison atoms
def _gcdnorm(p):
    import math
    cs = [c for k, c in p.m.items() if k]
    if not cs: return p
    den = 1
    for c in p.m.values():
        if isinstance(c, Fraction): den = den * c.denominator // math.gcd(den, c.denominator)
    if den != 1: p = p * den
    g = 0
    for k, c in p.m.items():
        if k: g = math.gcd(g, abs(int(c)))
    if g > 1:
        r = {}
        for k, c in p.m.items():
            if k: r[k] = c // g
            else:
                r[k] = c  # handled by the caller
        return (p, g)
    return p

def ge0(p):
    """integer condition p >= 0"""
    p = P(p)
    if p.is_const: return TRUE if p.const >= 0 else FALSE
    import math
    den = 1
    for c in p.m.values():
        if isinstance(c, Fraction): den = den * c.denominator // math.gcd(den, c.denominator)
    if den != 1: p = p * den
    g = 0
    for k, c in p.m.items():
        if k: g = math.gcd(g, abs(int(c)))
    c0 = p.m.get((), 0)
    r = {k: c // g for k, c in p.m.items() if k}
    f = c0 // g     # floor
    if f: r[()] = f
    p = Poly(r)
    if nonneg_b(p): return TRUE
    if nonneg_b(-p - 1): return FALSE
    s = ind_split(p, ge0)
    if s is not None: return s
    if lead(p) > 0: return batom(T("ge", p))
    return bnot(batom(T("ge", -p - 1)))

UPPER = {}     # op -> function(term) giving an upper bound polynomial
EQRULE = []    # functions(poly) -> BD or None, tried by eq0
LOWER = {}     # op -> constant lower bound
def use_upper(p):
    r = None
    for k, c in list(p.m.items()):
        if len(k) == 1 and k[0][1] == 1:
            t = Term._byid[k[0][0]]
            if c < 0:
                f = UPPER.get(t.op)
                if f is not None:
                    hi = f(t)
                    if hi is not None: r = (p if r is None else r) + (P(t) - hi) * (-c)
            else:
                lo = LOWER.get(t.op)
                if lo: r = (p if r is None else r) - (P(t) - lo) * c
    return r
def nonneg_b(p):
    if nonneg(p): return True
    u = use_upper(p)
    return u is not None and nonneg(u)
_splits = {}
def ind_split(p, f):
    """case split on an indicator when one of the cases is decided"""
    k = (p, f.__name__)
    if k in _splits: return _splits[k]
    r = None
    inds = [a for a in p.atoms() if Term._byid[a].op == "ind"]
    if 0 < len(inds) <= 3:
        for a in sorted(inds):
            t = Term._byid[a]
            hi = f(subst_atom(p, t, ONE)); lo = f(subst_atom(p, t, ZERO))
            if hi in (TRUE, FALSE) or lo in (TRUE, FALSE):
                r = bite(batom(t.args[0]), hi, lo); break
    _splits[k] = r
    return r
def fge0(p, strict=False):
    """real-valued comparison, no integer tightening"""
    p = P(p)
    if p.is_const: return TRUE if (p.const > 0 or (p.const == 0 and not strict)) else FALSE
    if lead(p) > 0: return batom(T("fgt" if strict else "fge", p))
    return bnot(batom(T("fge" if strict else "fgt", -p)))

def eq0(p):
    p = P(p)
    if p.is_const: return TRUE if p.const == 0 else FALSE
    if p in _rev: return bnot(_rev[p])
    if lead(p) < 0: p = -p
    import math
    den = 1
    for c in p.m.values():
        if isinstance(c, Fraction): den = den * c.denominator // math.gcd(den, c.denominator)
    if den != 1: p = p * den
    g = 0
    for k, c in p.m.items():
        if k: g = math.gcd(g, abs(int(c)))
    c0 = p.m.get((), 0)
    if g > 1:
        if c0 % g: return FALSE
        p = Poly({k: c // g for k, c in p.m.items()})
        if p in _rev: return bnot(_rev[p])
    if p.const > 0 and nonneg(p - 1): return FALSE
    if nonneg(-p - 1): return FALSE
    for f in EQRULE:
        r = f(p)
        if r is not None: return r
    # b == const for an indicator polynomial
    # equality with an enumerated finite range
    if len(p.m) <= 2:
        ks = [k for k in p.m if k]
        if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0][1] == 1 and p.m[ks[0]] == 1:
            t = Term._byid[ks[0][0][0]]
            dom = domain_of(t)
            if dom is not None and -p.const not in dom: return FALSE
    ind_only = all(all(Term._byid[a].op == "ind" for a, _ in k) for k in p.m)
    if ind_only and len(p.atoms()) <= 10:
        return _ind_eq(p)
    return batom(T("eq", p))

def _ind_eq(p):
    ats = sorted(p.atoms())
    if not ats: return TRUE if p.const == 0 else FALSE
    t = Term._byid[ats[0]]
    hi = subst_atom(p, t, ONE); lo = subst_atom(p, t, ZERO)
    return bite(batom(t.args[0]), _ind_eq(hi), _ind_eq(lo))

def subst_atom(p, t, v):
    r = ZERO
    for k, c in p.m.items():
        q = P(c)
        for a, e in k:
            q = q * (v if a == t.id else P(Term._byid[a])) if e == 1 else _powmul(q, (v if a == t.id else P(Term._byid[a])), e)
        r = r + q
    return r
def _powmul(q, x, e):
    for _ in range(abs(e)): q = q * x
    return q

def bne0(p): return bnot(eq0(p))
def lt(a, b): return ge0(P(b) - P(a) - 1)
def le(a, b): return ge0(P(b) - P(a))
def beq(a, b): return eq0(P(a) - P(b))
def to_bool(p):
    if isinstance(p, BD): return p
    return bne0(p)

_domains = {}
def set_domain(t, vals): _domains[t] = frozenset(vals)
def domain_of(t): return _domains.get(t)

_nonneg = set()
NONNEG_OPS = {"size", "count", "ind", "max0", "n", "mpi_rank", "mpi_size", "sel", "first", "sizeof", "ovsize", "boxcount", "commsize", "commrank", "peer", "pos", "npeers", "ext", "pg", "pg2"}
def mark_nonneg(t): _nonneg.add(t)
def nonneg_term(t):
    if t in _nonneg or t.op in NONNEG_OPS: return True
    if t.op in ("fdiv", "mod"): return all(nonneg(a) for a in t.args)
    if t.op == "psum": return nonneg(t.args[1])
    if t.op == "vcall" and t.args[0] in ("box_size", "complex_size", "workspace_size", "size_workspace", "size_input", "size_output"): return True
    return False
def nonneg(p):
    """syntactic: every monomial is a product of nonnegative atoms with a nonnegative coefficient"""
    for k, c in p.m.items():
        if c < 0: return False
        for a, e in k:
            if e % 2 and not nonneg_term(Term._byid[a]): return False
    return True

# ------------------------------------------------------------------ numeric constructors
def ite(c, a, b):
    """numeric conditional"""
    a = P(a); b = P(b)
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    # max/min patterns: c is a single atom  q>=0
    if c.v is not None and c.v.op == "ge" and c.hi.v is None and c.lo.v is None:
        q = c.v.args[0]
        pos = c.hi is TRUE
        x, y = (a, b) if pos else (b, a)
        d = x - y
        if d == q or d == q + 1: return y + max0(d)      # x if x-y>=0
        if -d == q or -d == q + 1: return x + max0(y - x) - (y - x) if False else x - max0(x - y) if False else _min(x, y)
        # [n >= 1] * f with f(0) = 0
        t = (q + 1).atom_term()
        if t is not None and nonneg_term(t):
            if pos and t in deps(d) and subst(d, {t: ZERO}) is ZERO and vanishes_ok(d, t): return a
            if not pos and t in deps(d) and subst(d, {t: ZERO}) is ZERO and vanishes_ok(d, t): return b
    return b + bd_poly(c) * (a - b)
def vanishes_ok(d, t):
    return t.op in ("n", "sym", "npeers", "size", "bound")
def _min(x, y): return x - max0(x - y)
def max0(p):
    p = P(p)
    if p.is_const: return p if p.const > 0 else ZERO
    if nonneg(p): return p
    if nonneg(-p): return ZERO
    import math
    if lead(p) < 0: return max0(-p) + p if False else P(T("max0", -p)) + p
    return P(T("max0", p))
def pmax(a, b): a = P(a); b = P(b); return b + max0(a - b)
def pmin(a, b): a = P(a); b = P(b); return a - max0(a - b)
def fdiv(a, b):
    a = P(a); b = P(b)
    if b.is_const and b.const != 0 and a.is_const:
        q = abs(a.const) // abs(b.const)
        return P(q if (a.const >= 0) == (b.const > 0) else -q)
    if b == ONE: return a
    if a == ZERO: return ZERO
    if a is b: return ONE
    if b.is_const and b.const > 0:
        # split exact multiples (assumes nonnegative remainders, C division of nonnegative values)
        ex = {}; rest = {}
        for k, c in a.m.items():
            if isinstance(c, int) and c % b.const == 0 and (k or c > 0): ex[k] = c // b.const
            else: rest[k] = c
        r = Poly(rest)
        if ex and nonneg(a) and nonneg(r): return Poly(ex) + fdiv(r, b)
        if ex and r == ZERO: return Poly(ex)
    # exact division of a multiple of b
    q = exact_div(a, b)
    if q is not None: return q
    return P(T("fdiv", a, b))
def exact_div(a, b):
    if len(b.m) == 1:
        (kb, cb), = b.m.items()
        r = {}
        for k, c in a.m.items():
            d = dict(k)
            for t, e in kb:
                if d.get(t, 0) < e: return None
                d[t] -= e
                if d[t] == 0: del d[t]
            if isinstance(c, int) and isinstance(cb, int) and c % cb: return None
            r[tuple(sorted(d.items()))] = _num(Fraction(c) / cb)
        return Poly(r)
    return None
def pmod(a, b):
    a = P(a); b = P(b)
    if a.is_const and b.is_const and b.const:
        import math
        return P(int(math.fmod(a.const, b.const)))
    return a - b * fdiv(a, b)
def inv(p):
    p = P(p)
    if p.is_const and p.const != 0: return P(Fraction(1) / Fraction(p.const))
    if len(p.m) == 1:
        (k, c), = p.m.items()
        r = P(Fraction(1) / Fraction(c))
        for a, e in k:
            t = Term._byid[a]
            x = P(t.args[0]) if t.op == "inv" else P(T("inv", P(t)))
            for _ in range(e): r = r * x
        return r
    # content extraction: common factor of all monomials
    com = None
    for k in p.m:
        d = dict(k)
        com = d if com is None else {t: min(e, d[t]) for t, e in com.items() if t in d}
    if com:
        cp = Poly({tuple(sorted(com.items())): 1})
        q = exact_div(p, cp)
        return inv(cp) * inv(q)
    # product of linear factors stays opaque
    f = p.m[min(p.m)]
    if f != 1:
        return P(Fraction(1) / Fraction(f)) * P(T("inv", p.div_const(f)))
    return P(T("inv", p))

# ------------------------------------------------------------------ substitution
def deps(x):
    """set of ("n"/"sym"/"bound") leaf terms below x"""
    if isinstance(x, Term):
        if x._deps is None:
            if x.op in ("n", "sym", "bound"): x._deps = frozenset((x,))
            else:
                s = frozenset()
                for a in x.args: s |= deps(a)
                x._deps = s
        return x._deps
    if isinstance(x, Poly):
        s = _pdeps.get(x)
        if s is None:
            s = frozenset()
            for a in x.atoms(): s |= deps(Term._byid[a])
            _pdeps[x] = s
        return s
    if isinstance(x, BD):
        s = _bdeps.get(x.id)
        if s is None:
            s = frozenset()
            for t in bd_support(x): s |= deps(t)
            _bdeps[x.id] = s
        return s
    if isinstance(x, tuple):
        s = frozenset()
        for a in x: s |= deps(a)
        return s
    if hasattr(x, "deps_"): return x.deps_()
    return frozenset()
_pdeps = {}; _bdeps = {}

REBUILD = {}
def subst(x, m, memo=None):
    """substitute leaf terms (Term -> Poly/BD/Term) everywhere; rebuilds canonically"""
    if not m: return x
    if memo is None: memo = {}
    return _subst(x, m, memo)
def _subst(x, m, memo):
    if isinstance(x, Poly):
        if not any(t in m for t in deps(x)): return x
        r = memo.get(x)
        if r is not None: return r
        r = ZERO
        for k, c in x.m.items():
            q = P(c)
            for a, e in k:
                v = _subst_num(Term._byid[a], m, memo)
                if e == 1: q = q * v
                else: q = _powmul(q, v, e)
            r = r + q
        memo[x] = r
        return r
    if isinstance(x, BD):
        if x.v is None: return x
        if not any(t in m for t in deps(x)): return x
        k = ("bd", x.id)
        r = memo.get(k)
        if r is None:
            c = _subst_bool(x.v, m, memo)
            r = bite(c, _subst(x.hi, m, memo), _subst(x.lo, m, memo))
            memo[k] = r
        return r
    if isinstance(x, Term):
        if not any(t in m for t in deps(x)): return x
        r = m.get(x)
        if r is not None: return r
        r = memo.get(("t", x))
        if r is None:
            args = tuple(_subst(a, m, memo) for a in x.args)
            f = REBUILD.get(x.op)
            r = f(*args) if f else T(x.op, *args)
            memo[("t", x)] = r
        return r
    if isinstance(x, tuple): return tuple(_subst(a, m, memo) for a in x)
    if hasattr(x, "subst_"): return x.subst_(m, memo)
    return x
def _subst_num(t, m, memo):
    v = _subst(t, m, memo)
    return v if isinstance(v, Poly) else P(v)
def _subst_bool(t, m, memo):
    v = _subst(t, m, memo)
    if isinstance(v, BD): return v
    if isinstance(v, Term): return batom(v)
    return to_bool(v)
REBUILD["ge"] = lambda p: ge0(p)
REBUILD["eq"] = lambda p: eq0(p)
REBUILD["fge"] = lambda p: fge0(p)
REBUILD["fgt"] = lambda p: fge0(p, True)
REBUILD["max0"] = lambda p: max0(p)
REBUILD["fdiv"] = lambda a, b: fdiv(a, b)
REBUILD["inv"] = lambda p: inv(p)
def _rebuild_ind(c):
    if isinstance(c, BD): return bd_poly(c)
    if isinstance(c, Term): return P(T("ind", c))
    return c
REBUILD["ind"] = _rebuild_ind

# ------------------------------------------------------------------ bound variables, sums, searches
def bound(i): return T("bound", i)
def _maxbound(x):
    d = [t.args[0] for t in deps(x) if t.op == "bound"]
    return max(d) + 1 if d else 0
def depends(x, t): return t in deps(x)

def psum(f, n, N):
    """sum_{n=0}^{N-1} f(n)   (N >= 0 assumed by the caller)"""
    f = P(f); N = P(N)
    if f == ZERO or N == ZERO: return ZERO
    if N.is_const and 0 < N.const <= 16:
        r = ZERO
        for i in range(int(N.const)): r = r + subst(f, {n: P(i)})
        return r
    res = ZERO
    for k, c in f.m.items():
        inv_ = P(c); dep = ONE
        for a, e in k:
            t = Term._byid[a]
            for _ in range(e):
                if depends(t, n): dep = dep * P(t)
                else: inv_ = inv_ * P(t)
        if dep == ONE: res = res + inv_ * N
        elif dep == P(n): res = res + inv_ * (N * (N - 1)).div_const(2)
        else: res = res + inv_ * _psum_atom(dep, n, N)
    return res
def _psum_atom(dep, n, N):
    # sum over an equality indicator  [n == e] * g(n)  ->  [0<=e<N] g(e)
    (k, c), = dep.m.items()
    for a, e in k:
        t = Term._byid[a]
        if t.op == "ind" and t.args[0].op == "eq":
            q = t.args[0].args[0]
            cf = q.m.get(((n.id, 1),), 0)
            rest = q - P(n) * cf
            if cf in (1, -1) and not depends(rest, n):
                e_ = rest * (-cf)
                d = dict(k); del d[a]
                g = subst(Poly({tuple(sorted(d.items())): 1}), {n: e_})
                return bd_poly(band(ge0(e_), lt(e_, N))) * g
    c0 = N.const
    b = bound(_maxbound(dep))
    body = subst(dep, {n: P(b)})
    if c0 and isinstance(c0, int) and not N.is_const and abs(c0) <= 4:
        N0 = N - c0
        r = P(T("psum", b, body, N0))
        if c0 > 0:
            for j in range(c0): r = r + subst(dep, {n: N0 + j})
        else:
            for j in range(-c0): r = r - subst(dep, {n: N0 - 1 - j})
        return r
    return P(T("psum", b, body, N))
REBUILD["psum"] = lambda b, f, N: psum(f, b, N) if isinstance(b, Term) else (_ for _ in ()).throw(ValueError)

def _close(c, n):
    b = bound(_maxbound(c))
    return b, subst(c, {n: P(b)})
def exists(c, n, N):
    """exists n in [0,N): c(n)"""
    N = P(N)
    if c is FALSE or N == ZERO: return FALSE
    if not depends(c, n): return band(c, ge0(N - 1))
    if N.is_const and 0 < N.const <= 16:
        return bor(*[subst(c, {n: P(i)}) for i in range(int(N.const))])
    e_ = _solve_eq(c, n)
    if e_ is not None:
        return band(subst(c, {n: e_}), ge0(e_), lt(e_, N))
    # distribute over disjunction by factoring invariant atoms is not needed here
    b, cb = _close(c, n)
    return batom(T("ex", b, cb, N))
def _solve_eq(c, n):
    """c implies n == e for an n-free e"""
    pos, neg = bd_literals(c)
    for t in pos:
        if t.op == "eq":
            q = t.args[0]; cf = q.m.get(((n.id, 1),), 0)
            rest = q - P(n) * cf
            if cf in (1, -1) and not depends(rest, n): return rest * (-cf)
    return None
REBUILD["ex"] = lambda b, c, N: exists(c if isinstance(c, BD) else batom(c), b, N)
def first(c, n, N):
    """smallest n in [0,N) with c(n) (meaningful only if it exists)"""
    e_ = _solve_eq(c, n)
    if e_ is not None: return e_
    b, cb = _close(c, n)
    return P(T("first", b, cb, P(N)))
REBUILD["first"] = lambda b, c, N: first(c, b, N)
def last(c, n, N):
    e_ = _solve_eq(c, n)
    if e_ is not None: return e_
    b, cb = _close(c, n)
    return P(T("lastof", b, cb, P(N)))
REBUILD["lastof"] = lambda b, c, N: last(c, b, N)
def sel(c, n, N, j):
    """the j-th n in [0,N) with c(n)"""
    if c is TRUE: return P(j)
    b, cb = _close(c, n)
    return P(T("sel", b, cb, P(N), P(j)))
REBUILD["sel"] = lambda b, c, N, j: sel(c, b, N, j)
def count(c, n, N): return psum(bd_poly(c), n, N)

BINDERS = ("psum", "ex", "first", "lastof", "sel", "rmax", "rmin", "pprod")
def alpha(x, memo=None):
    """renumber bound variables canonically (bottom-up)"""
    if memo is None: memo = {}
    if isinstance(x, Poly):
        if not any(t.op == "bound" for t in deps(x)): return x
        r = memo.get(x)
        if r is None:
            r = ZERO
            for k, c in x.m.items():
                q = P(c)
                for a, e in k:
                    v = alpha(Term._byid[a], memo)
                    v = v if isinstance(v, Poly) else P(v)
                    q = q * v if e == 1 else _powmul(q, v, e)
                r = r + q
            memo[x] = r
        return r
    if isinstance(x, BD):
        if x.v is None or not any(t.op == "bound" for t in deps(x)): return x
        k = ("bd", x.id); r = memo.get(k)
        if r is None:
            v = alpha(x.v, memo)
            c = v if isinstance(v, BD) else batom(v) if isinstance(v, Term) else to_bool(v)
            r = memo[k] = bite(c, alpha(x.hi, memo), alpha(x.lo, memo))
        return r
    if isinstance(x, Term):
        if x.op == "bound" or not any(t.op == "bound" for t in deps(x)): return x
        r = memo.get(("t", x))
        if r is None:
            if x.op in BINDERS and isinstance(x.args[0], Term) and x.args[0].op == "bound":
                n = fresh_index("a")
                body = subst(alpha(x.args[1], memo), {x.args[0]: P(n)})
                rest = tuple(alpha(a, memo) for a in x.args[2:])
                if x.op in REBUILD: r = REBUILD[x.op](n, body, *rest)
                else:
                    b = bound(_maxbound(body)); r = T(x.op, b, subst(body, {n: P(b)}), *rest)
            else:
                args = tuple(alpha(a, memo) for a in x.args)
                f = REBUILD.get(x.op)
                r = f(*args) if f else T(x.op, *args)
            memo[("t", x)] = r
        return r
    if isinstance(x, tuple): return tuple(alpha(a, memo) for a in x)
    return x
def same(a, b):
    """equal up to the numbering of bound variables"""
    return a is b or (type(a) is type(b) and isinstance(a, (Poly, BD)) and alpha(a) is alpha(b))

# ------------------------------------------------------------------ printing
def show(x, depth=0):
    if isinstance(x, Poly):
        if not x.m: return "0"
        out = []
        for k, c in sorted(x.m.items(), key=lambda kc: (-len(kc[0]), kc[0])):
            f = "*".join(show(Term._byid[a]) + ("^%d" % e if e != 1 else "") for a, e in k)
            if not k: out.append(str(c))
            elif c == 1: out.append(f)
            elif c == -1: out.append("-" + f)
            else: out.append("%s*%s" % (c, f))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if isinstance(x, BD):
        if x is TRUE: return "true"
        if x is FALSE: return "false"
        if x.hi is TRUE and x.lo is FALSE: return show(x.v)
        if x.hi is FALSE and x.lo is TRUE: return "!" + show(x.v)
        if x.lo is FALSE: return "(%s & %s)" % (show(x.v), show(x.hi))
        if x.hi is FALSE: return "(!%s & %s)" % (show(x.v), show(x.lo))
        if x.hi is TRUE: return "(%s | %s)" % (show(x.v), show(x.lo))
        if x.lo is TRUE: return "(!%s | %s)" % (show(x.v), show(x.hi))
        return "(%s ? %s : %s)" % (show(x.v), show(x.hi), show(x.lo))
    if isinstance(x, Term):
        if x.op == "sym": return x.args[0] if isinstance(x.args[0], str) and len(x.args) == 1 else "%s#%s" % (x.args[0], x.args[-1])
        if x.op == "n": return "%s%d" % (x.args[0], x.args[1])
        if x.op == "bound": return "$%d" % x.args[0]
        if x.op == "in": return ".".join(str(a) if not isinstance(a, (Poly, Term)) else "[" + show(a) + "]" for a in x.args)
        if x.op == "ge": return "%s>=0" % show(x.args[0])
        if x.op == "eq": return "%s==0" % show(x.args[0])
        if x.op == "ind": return "[%s]" % show(x.args[0])
        if x.op == "fdiv": return "(%s/%s)" % (show(x.args[0]), show(x.args[1]))
        if x.op == "fld": return "%s.%s" % (show(x.args[0]), x.args[1])
        if x.op == "idx": return "%s[%s]" % (show(x.args[0]), show(x.args[1]))
        return "%s(%s)" % (x.op, ", ".join(show(a) for a in x.args))
    if isinstance(x, tuple): return "(" + ",".join(show(a) for a in x) + ")"
    return repr(x) if not isinstance(x, str) else x

# ------------------------------------------------------------------ linear entailment (Fourier-Motzkin)
def fm_entails(facts, goal, limit=4000):
    """facts: polys >= 0 (monomials treated as variables, products of facts are the caller's job);
    True if goal >= 0 follows over the rationals."""
    cons = [dict(p.m) for p in facts] + [dict((-P(goal) - 1).m)]
    return _fm_unsat(cons, limit)
def _fm_unsat(cons, limit):
    def norm(c):
        v = {k: x for k, x in c.items() if x != 0}
        return v
    cons = [norm(c) for c in cons]
    while True:
        for c in cons:
            if all(k == () for k in c) and c.get((), 0) < 0: return True
        vs = set(k for c in cons for k in c if k)
        if not vs: return False
        # eliminate the variable with the smallest product
        best = None
        for v in vs:
            p = sum(1 for c in cons if c.get(v, 0) > 0); n = sum(1 for c in cons if c.get(v, 0) < 0)
            s = p * n - p - n
            if best is None or s < best[0]: best = (s, v)
        v = best[1]
        pos = [c for c in cons if c.get(v, 0) > 0]; neg = [c for c in cons if c.get(v, 0) < 0]
        rest = [c for c in cons if c.get(v, 0) == 0]
        new = []
        for a in pos:
            for b in neg:
                x = Fraction(1, 1) / a[v]; y = Fraction(-1, 1) / b[v]
                r = {}
                for k, c in a.items(): r[k] = r.get(k, 0) + c * x
                for k, c in b.items(): r[k] = r.get(k, 0) + c * y
                r = {k: c for k, c in r.items() if c != 0}
                new.append(r)
        seen = set(); out = []
        for c in rest + new:
            if c and not all(k == () for k in c):
                s = max(abs(x) for x in c.values())
                key = frozenset((k, Fraction(x) / s) for k, x in c.items())
                if key in seen: continue
                seen.add(key)
            out.append(c)
        cons = out
        if len(cons) > limit: return False
