"""Gated value-flow analysis over the extracted program: every function is evaluated once per calling context over
abstract values (polynomials, decision diagrams, abstract sequences); branches are joined with gates, loops are
replaced by closed summaries, calls with side effects outside the analysed code become guarded effects."""
import re, sys, itertools
from dom import *
import dom
from values import *
import values
sys.setrecursionlimit(20000)

class Imprecise(Exception): pass
class Abandon(Exception): pass

def normq(q):
    r = _nq.get(q)
    if r is not None: return r
    out = []; d = 0; i = 0
    s = q
    m = re.search(r"operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)", s)
    tail = ""
    if m: tail = s[m.start():m.end()]; s2 = s[:m.start()]
    else: s2 = s
    for ch in s2:
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif d == 0: out.append(ch)
    r = "".join(out) + tail
    _nq[q] = r
    return r
_nq = {}

def constrain(f, c):
    """generalised cofactor of f by c (f and the result agree where c holds)"""
    if c is TRUE or f.v is None: return f
    if c is FALSE: return f
    if f is c: return TRUE
    k = (f.id, c.id)
    r = _cc.get(k)
    if r is not None: return r
    v = f.v if (c.v is None or f.v.id <= c.v.id) else c.v
    fh, fl = (f.hi, f.lo) if f.v is v else (f, f)
    ch, cl = (c.hi, c.lo) if c.v is v else (c, c)
    if ch is FALSE: r = constrain(fl, cl)
    elif cl is FALSE: r = constrain(fh, ch)
    else:
        if f.v is not v:
            # variable only in c: existentially abstract it from c to avoid importing it into f
            r = constrain(f, bor(ch, cl))
        else: r = dom._node(v, constrain(fh, ch), constrain(fl, cl))
    _cc[k] = r
    return r
_cc = {}

class State:
    __slots__ = ("g", "s")
    def __init__(self, g, s): self.g = g; self.s = s
    def copy(self, g=None): return State(self.g if g is None else g, dict(self.s))
    @property
    def dead(self): return self.g is FALSE

class Eff:
    __slots__ = ("kind", "g", "d", "loc", "n", "N", "body")
    def __init__(self, kind, g, d, loc, n=None, N=None, body=None):
        self.kind = kind; self.g = g; self.d = d; self.loc = loc; self.n = n; self.N = N; self.body = body
    def __repr__(self):
        if self.kind == "loop": return "for %s<%s if %s: {%s}" % (show(self.n), show(self.N), show(self.g), "; ".join(map(repr, self.body)))
        return "[%s] %s %s @%s" % (show(self.g), self.kind, self.d, self.loc[1])
    def subst(self, m):
        def sv(x):
            if isinstance(x, dict): return {k: sv(v) for k, v in x.items()}
            if isinstance(x, list): return [sv(v) for v in x]
            if isinstance(x, str) or x is None or isinstance(x, (int, float)): return x
            return subst(x, m)
        return Eff(self.kind, subst(self.g, m), sv(self.d), self.loc, self.n, None if self.N is None else subst(self.N, m), None if self.body is None else [e.subst(m) for e in self.body])
    def gmap(self, f):
        return Eff(self.kind, f(self.g), self.d, self.loc, self.n, self.N, self.body)
def show_effs(es, ind=0, out=None):
    out = [] if out is None else out
    for e in es:
        if e.kind == "loop":
            out.append("  " * ind + "for %s<%s if %s @%s" % (show(e.n), show(e.N), show(e.g), e.loc[1])); show_effs(e.body, ind + 1, out)
        else: out.append("  " * ind + repr(e))
    return out

class Frame:
    _u = itertools.count(1)
    def __init__(self, fn, this): self.fn = fn; self.this = this; self.env = {}; self.returns = []; self.loops = []; self.uid = next(Frame._u); self.cells = []
class LoopCtx:
    def __init__(self): self.breaks = []; self.continues = []

class Machine:
    def __init__(self, prog, hooks=None, facts=(), inline_depth=40):
        self.p = prog; self.hooks = hooks or {}; self.facts = list(facts)
        self.st = State(TRUE, {}); self.rec = []; self.frames = []; self.loc = ("?", 0)
        self.stats = {"functions": set(), "calls": 0, "loops": 0, "unrolled": 0}
        self.warn = []
        self.distinct = set()      # bases of pairwise different, non-null buffers
        self.trynest = 0
        values.SYMVAL[0] = self.sym; values.OBJFIELD[0] = self.objfield
        self._fields = {}; self._dc = {}; self._lc = {}
        self.maxdepth = inline_depth
        self.vpure = set(["box_size", "complex_size", "workspace_size", "size_workspace", "size_intput", "size_output"])
        import stdmodel
        self.std = stdmodel.TABLE

    # ------------------------------------------------------------ types
    def ty(self, t): return self.p.types.get(t) or {"k": "void", "s": "?"}
    def strip(self, t):
        y = self.ty(t)
        return self.ty(y["el"]) if y["k"] == "ref" else y
    def size(self, t):
        y = self.ty(t)
        return y.get("size", 1)
    def rect(self, y):
        return self.p.recs[y["rec"]] if y["k"] == "rec" else None
    def is_data(self, t):
        """scalar numeric data: float or complex"""
        y = self.ty(t)
        if y["k"] == "float": return True
        if y["k"] == "rec":
            r = self.rect(y); q = normq(r["q"])
            if q in ("std::complex", "heffte::stock::Complex"): return True
        return False
    def is_complex(self, y):
        return y["k"] == "rec" and normq(self.rect(y)["q"]) in ("std::complex",)
    def fields(self, rid):
        f = self._fields.get(rid)
        if f is None:
            f = {}
            r = self.p.recs[rid]
            for b in r.get("bases") or []: f.update(self.fields(b))
            for x in r.get("fields") or []: f[x["n"]] = x
            if normq(r["q"]) == "std::pair" and r.get("tat"):
                f["first"] = {"n": "first", "t": r["tat"][0]}; f["second"] = {"n": "second", "t": r["tat"][1]}
            self._fields[rid] = f
        return f
    def is_vec(self, y): return y["k"] == "rec" and normq(self.rect(y)["q"]) == "std::vector"
    def is_arr(self, y): return y["k"] == "arr" or (y["k"] == "rec" and normq(self.rect(y)["q"]) == "std::array")
    def eltype(self, y):
        if y["k"] in ("arr", "ptr", "ref"): return y["el"]
        r = self.rect(y)
        return r["tat"][0]
    def arrlen(self, y):
        if y["k"] == "arr": return y.get("n")
        return int(self.rect(y)["ta"][1])

    # ------------------------------------------------------------ symbolic values
    def sym(self, t, term):
        y = self.strip(t); k = y["k"]
        if k == "bool": return batom(term)
        if k in ("int", "enum", "float"): return P(term)
        if k == "ptr":
            e = self.ty(y["el"])
            return Ptr(term, (), None if e["k"] in ("rec",) and not self.is_data(y["el"]) else ZERO)
        if self.is_data(t) or self.is_complex(y): return P(term)
        if self.is_arr(y):
            n = self.arrlen(y); et = self.eltype(y)
            if n is not None and n <= 64:
                return VElems(et, self.size(et), [self.sym(et, T("idx", term, P(i))) for i in range(n)])
            return self.symvec(et, term, P(n) if n is not None else P(T("size", term)))
        if self.is_vec(y):
            et = self.eltype(y)
            if self.is_data(et): return VFlat(et, self.size(et), P(T("size", term)), term)
            return self.symvec(et, term, P(T("size", term)))
        if k == "rec":
            r = self.rect(y); q = normq(r["q"])
            if q in ("std::unique_ptr", "std::shared_ptr"):
                return Ptr(T("up", term), (), None if self.ty(r["tat"][0])["k"] != "arr" else ZERO)
            if r.get("ours") or q == "std::pair": return Obj(y["rec"], {}, term)
        return Sym(term)
    def symvec(self, et, term, size):
        n = fresh_index("v")
        return VFn(et, self.size(et), size, n, self.sym(et, T("idx", term, P(n))), base=term)
    def zero(self, t):
        y = self.strip(t); k = y["k"]
        if k == "bool": return FALSE
        if k in ("int", "enum", "float") or self.is_data(t) or self.is_complex(y): return ZERO
        if k in ("ptr", "nullptr"): return NULL
        if self.is_arr(y):
            n = self.arrlen(y); et = self.eltype(y)
            if n is not None and n <= 64: return VElems(et, self.size(et), [self.zero(et)] * n)
            m = fresh_index("v")
            return VFn(et, self.size(et), P(n or 0), m, self.zero(et))
        if k == "rec":
            r = self.rect(y); q = normq(r["q"])
            if q == "std::vector": return VElems(self.eltype(y), self.size(self.eltype(y)), [])
            if q in ("std::unique_ptr", "std::shared_ptr"): return NULL
            if q == "std::basic_string": return Sym(T("str", ""))
            if r.get("ours") or q == "std::pair":
                return Obj(y["rec"], {n: self.zero(f["t"]) for n, f in self.fields(y["rec"]).items()})
        return UNDEF
    def undef(self, t):
        """uninitialised variable of type t"""
        y = self.strip(t)
        if self.is_arr(y):
            n = self.arrlen(y); et = self.eltype(y)
            if n is not None and n <= 64: return VElems(et, self.size(et), [self.undef(et)] * n)
        if y["k"] == "rec":
            r = self.rect(y); q = normq(r["q"])
            if q in ("std::vector", "std::unique_ptr", "std::shared_ptr", "std::basic_string"): return self.zero(t)
            if r.get("ours") or q == "std::pair": return Obj(y["rec"], {n: self.undef(f["t"]) for n, f in self.fields(y["rec"]).items()})
        return UNDEF
    def objfield(self, o, name):
        if name in o.f: return o.f[name]
        if o.base is None: return UNDEF
        f = self.fields(o.rec).get(name)
        if f is None: return UNDEF
        return self.sym(f["t"], T("fld", o.base, name))

    # ------------------------------------------------------------ store
    def get_step(self, v, p):
        if isinstance(v, GV): return gv([(c, self.get_step(x, p)) for c, x in v.alts])
        if isinstance(p, str):
            if isinstance(v, Obj):
                x = v.f.get(p)
                return self.objfield(v, p) if x is None else x
            if isinstance(v, Sym): return Sym(T("fld", v.t, p))
            return UNDEF
        if isinstance(v, Vec): return vec_get(v, p)
        if isinstance(v, Sym): return Sym(T("idx", v.t, p))
        return UNDEF
    def root(self, base, ty=None):
        v = self.st.s.get(base)
        if v is None and ty is not None:
            v = self.sym(ty, base)
        return v
    def read(self, lv, ty=None):
        if isinstance(lv, MLV): return gv([(c, self.read(x, ty)) for c, x in lv.alts])
        if lv.ty is not None: ty = lv.ty
        v = self.st.s.get(lv.base)
        if v is None:
            return self.read_ext(lv, ty)
        for p in lv.path: v = self.get_step(v, p)
        if lv.off is not None:
            return self.read_off(v, lv, ty)
        if v is UNDEF and ty is not None: return v
        return self.simp(v)
    def memterm(self, base, path):
        return base if not path else T("sub", base, tuple(path))
    def read_off(self, v, lv, ty):
        if isinstance(v, GV): return gv([(c, self.read_off(x, lv, ty)) for c, x in v.alts])
        if isinstance(v, VFlat): return P(T("load", v.mem, lv.off, self.size(ty) if ty else v.es))
        if isinstance(v, Vec):
            i = div_bytes(lv.off, v.es)
            if i is not None: return vec_get(v, i)
        if lv.off is ZERO: return v
        return self.sym(ty, T("load", self.memterm(lv.base, lv.path), lv.off, self.size(ty))) if ty else UNDEF
    def read_ext(self, lv, ty):
        """memory owned by nobody in the store (parameters of the analysed entry point)"""
        t = lv.base; cur = None
        if ty is None: return Sym(self.memterm(lv.base, lv.path))
        t = self.ext_term(lv)
        if lv.off is not None: return self.sym(ty, T("load", t, lv.off, self.size(ty)))
        return self.sym(ty, t)
    def ext_term(self, lv):
        t = lv.base
        for p in lv.path:
            if isinstance(p, str): t = T("fld", t, p)
            elif p is ZERO: pass
            else: t = T("idx", t, p)
        return t
    def write(self, lv, val, ty=None):
        if isinstance(lv, MLV):
            if len(lv.alts) == 1: return self.write(lv.alts[0][1], val, ty)
            for c, x in lv.alts:
                s0 = self.st; a = s0.copy(band(s0.g, c))
                if a.dead: continue
                self.st = a; self.write(x, val, ty)
                b = s0.copy(band(s0.g, bnot(c)))
                self.st = self.merge(c, self.st, b)
            return
        if lv.ty is not None: ty = lv.ty
        v = self.st.s.get(lv.base)
        if v is None:
            if lv.base.op == "cell" and not lv.path and lv.off is None:
                self.st.s[lv.base] = val; return
            if lv.off is None and not lv.path and lv.base.op in ("sym", "up", "fld", "idx", "sub", "heap") and ty is not None and self.strip(ty)["k"] == "rec" and not self.is_data(ty):
                self.st.s[lv.base] = val; return
            self.effect("write", mem=self.ext_term(lv), off=lv.off if lv.off is not None else ZERO, size=self.size(ty) if ty else 0, val=val); return
        if lv.off is not None:
            self.st.s[lv.base] = self.set_path(v, lv.path, val, lv.off, ty)
        else:
            self.st.s[lv.base] = self.set_path(v, lv.path, val, None, ty)
    def set_path(self, v, path, val, off, ty):
        if not path:
            if off is None: return val
            if isinstance(v, VFlat):
                self.effect("write", mem=v.mem, off=off, size=self.size(ty) if ty else v.es, val=val); return v
            if isinstance(v, GV): return gv([(c, self.set_path(x, path, val, off, ty)) for c, x in v.alts])
            if isinstance(v, Vec):
                i = div_bytes(off, v.es)
                if i is not None: return vec_set(v, i, val)
            if off is ZERO: return val
            self.note("write with unknown element"); return v
        p = path[0]
        if isinstance(v, GV): return gv([(c, self.set_path(x, path, val, off, ty)) for c, x in v.alts])
        if isinstance(p, str):
            if not isinstance(v, Obj):
                return v
            old = v.f.get(p)
            if old is None: old = self.objfield(v, p)
            return v.with_(p, self.set_path(old, path[1:], val, off, ty))
        if isinstance(v, VFlat):
            self.effect("write", mem=v.mem, off=p * v.es, size=v.es, val=val); return v
        if isinstance(v, Vec):
            if len(path) == 1 and off is None: return vec_set(v, p, val)
            return vec_set(v, p, self.set_path(vec_get(v, p), path[1:], val, off, ty))
        return v
    def note(self, what): self.warn.append((what, self.loc))

    # ------------------------------------------------------------ guards
    def effect(self, kind, **d):
        if self.st.dead: return
        self.rec.append(Eff(kind, self.st.g, d, self.loc))
    def assume(self, c):
        self.st.g = band(self.st.g, c)
    def decide(self, c):
        """simplify a condition under the current path guard"""
        if c.v is None: return c
        g = self.st.g
        k = (g.id, c.id)
        r = self._dc.get(k)
        if r is not None: return r
        r = c
        if g is not TRUE:
            if implies(g, c): r = TRUE
            elif implies(g, bnot(c)): r = FALSE
            else: r = constrain(c, g)
        if r.v is not None:
            sup = bd_support(r)
            if len(sup) <= 12:
                for a in sup:
                    if a.op in ("ge", "eq"):
                        w = self.decide_atom(a)
                        if w is not None:
                            r = self.restrict(r, a, w)
        self._dc[k] = r
        return r
    def restrict(self, b, a, w):
        if b.v is None: return b
        if b.v is a: return self.restrict(b.hi if w else b.lo, a, w)
        if b.v.id > a.id: return b
        return dom._node(b.v, self.restrict(b.hi, a, w), self.restrict(b.lo, a, w))
    def guard_facts(self):
        pos, neg = bd_literals(self.st.g)
        f = list(self.facts)
        for t in pos:
            if t.op == "ge": f.append(t.args[0])
            elif t.op == "eq": f.append(t.args[0]); f.append(-t.args[0])
        for t in neg:
            if t.op == "ge": f.append(-t.args[0] - 1)
        return f
    def decide_atom(self, a):
        k = ("atom", self.st.g.id, a.id)
        if k in self._dc: return self._dc[k]
        w = None
        f = self.guard_facts()
        q = a.args[0]
        if f or True:
            f = relevant(f, q)
            if a.op == "ge":
                if f and entails(f, q): w = True
                elif f and entails(f, -q - 1): w = False
            else:
                if f and (entails(f, q - 1) or entails(f, -q - 1)): w = False
                elif f and entails(f, q) and entails(f, -q): w = True
                else:
                    pos, neg = bd_literals(self.st.g)
                    # x != c with a known equality of the same linear form is covered above
        self._dc[k] = w
        return w
    def simp(self, v):
        """use literals of the path guard inside gated values"""
        g = self.st.g
        if g is TRUE: return v
        if isinstance(v, Poly):
            if v.is_const: return v
            inds = [t for t in v.atoms() if Term._byid[t].op == "ind"]
            if not inds: return v
            for t in inds:
                a = Term._byid[t].args[0]
                c = self.decide(batom(a))
                if c is TRUE: v = dom.subst_atom(v, Term._byid[t], ONE)
                elif c is FALSE: v = dom.subst_atom(v, Term._byid[t], ZERO)
            return v
        if isinstance(v, GV):
            alts = []
            for c, x in v.alts:
                c2 = self.decide(c)
                if c2 is TRUE: return self.simp(x)
                if c2 is not FALSE: alts.append((c2, x))
            return gv(alts)
        if isinstance(v, BD): return self.decide(v)
        return v

    # ------------------------------------------------------------ joins
    def merge(self, c, a, b):
        """join two states; c holds in a"""
        if a is None or a.dead: return b if b is not None else State(FALSE, {})
        if b is None or b.dead: return a
        s = {}
        for k, v in a.s.items():
            w = b.s.get(k)
            if w is None or w is v: s[k] = v
            else: s[k] = vite(c, v, w)
        for k, w in b.s.items():
            if k not in a.s: s[k] = w
        return State(bor(a.g, b.g), s)
    def merge_all(self, sts):
        """sts: [(state, value)] with disjoint guards"""
        sts = [(s, v) for s, v in sts if not s.dead]
        if not sts: return State(FALSE, {}), UNDEF
        st, val = sts[0]
        for s, v in sts[1:]:
            u = bor(st.g, s.g)
            c = constrain(st.g, u)
            val = self.vmerge(c, val, v)
            st = self.merge(c, st, s)
        return st, val
    def vmerge(self, c, a, b):
        if isinstance(a, (LV, MLV)) or isinstance(b, (LV, MLV)):
            if isinstance(a, LV) and isinstance(b, LV) and a == b: return a
            def al(x, g): return [(band(g, c2), y) for c2, y in x.alts] if isinstance(x, MLV) else [(g, x)]
            if a is UNDEF: return b
            if b is UNDEF: return a
            return MLV(al(a, c) + al(b, bnot(c)))
        return vite(c, a, b)
    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under !c, join states and values"""
        c = self.decide(c)
        if c is TRUE: return fa()
        if c is FALSE: return fb()
        s0 = self.st
        self.st = s0.copy(band(s0.g, c)); va = fa(); sa = self.st
        self.st = s0.copy(band(s0.g, bnot(c))); vb = fb(); sb = self.st
        if sa.dead: self.st = sb; return vb
        if sb.dead: self.st = sa; return va
        self.st = self.merge(c, sa, sb)
        return self.vmerge(c, va, vb) if (va is not None and vb is not None) else None

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        if n is None: return UNDEF
        if self.st.dead: return UNDEF
        if "l" in n: self.loc = (self.frames[-1].fn["file"] if self.frames else "?", n["l"])
        v = getattr(self, "e_" + n["k"], self.e_unknown)(n)
        if isinstance(v, (LV, MLV)): v = self.read(v, n.get("t"))
        return v
    def lv(self, n):
        """evaluate to a location (a temporary if n is a prvalue)"""
        if self.st.dead: return self.temp(UNDEF)
        if "l" in n: self.loc = (self.frames[-1].fn["file"] if self.frames else "?", n["l"])
        v = getattr(self, "e_" + n["k"], self.e_unknown)(n)
        if isinstance(v, (LV, MLV)): return v
        return self.temp(v)
    def temp(self, v):
        c = T("cell", next(_cells), "tmp")
        self.st.s[c] = v
        if self.frames: self.frames[-1].cells.append(c)
        return LV(c)
    def num(self, v):
        if isinstance(v, BD): return bd_poly(v)
        if isinstance(v, Poly): return v
        if isinstance(v, GV):
            r = None
            for c, x in v.alts:
                x = self.num(x); r = x if r is None else ite(c, x, r)
            return r
        if isinstance(v, Sym): return P(v.t)
        if isinstance(v, Ptr): return P(T("addr", v))
        if v is UNDEF: return P(T("undef"))
        return P(T("opaque", v)) if isinstance(v, (Obj, Vec)) else P(fresh("num"))
    def boolean(self, v):
        if isinstance(v, BD): return v
        if isinstance(v, Poly): return bne0(v)
        if isinstance(v, Ptr): return bnot(self.isnull(v))
        if isinstance(v, GV): return bor(*[band(c, self.boolean(x)) for c, x in v.alts])
        if isinstance(v, Sym): return batom(v.t)
        return batom(fresh("undefb"))
    def isnull(self, v):
        if isinstance(v, GV): return bor(*[band(c, self.isnull(x)) for c, x in v.alts])
        if isinstance(v, Poly): return eq0(v)
        if not isinstance(v, Ptr): return batom(fresh("isnull?"))
        if v == NULL or v.base.op == "null": return TRUE
        if v.base.op in ("cell", "heap", "global", "str", "fnptr") or v.path or v.base in self.distinct: return FALSE
        if v.off is not None and v.off is not ZERO: return FALSE
        return batom(T("isnull", v.base))

    def e_unknown(self, n):
        self.note("unmodelled node " + n["k"])
        return self.sym(n["t"], fresh("unk")) if "t" in n else UNDEF
    def e_int(self, n): return P(int(n["v"]))
    def e_bool(self, n): return TRUE if n["v"] else FALSE
    def e_flt(self, n):
        from fractions import Fraction
        try: return P(Fraction(str(n["v"])))
        except Exception: return P(Fraction(float(n["v"])).limit_denominator(10**9))
    def e_str(self, n): return Sym(T("str", n["v"]))
    def e_null(self, n): return NULL
    def e_zeroinit(self, n): return self.zero(n["t"])
    def e_this(self, n):
        t = self.frames[-1].this
        return self.addr(t)
    def addr(self, l):
        if isinstance(l, MLV): return gv([(c, self.addr(x)) for c, x in l.alts])
        if l.path and isinstance(l.path[-1], Poly):
            # address of an element: pointer into the sequence
            es = self.es_of(l)
            if es is not None: return Ptr(l.base, l.path[:-1], l.path[-1] * es)
        return Ptr(l.base, l.path, l.off)
    def es_of(self, l):
        v = self.st.s.get(l.base)
        if v is None: return None
        for p in l.path[:-1]: v = self.get_step(v, p)
        if isinstance(v, GV): v = v.alts[0][1]
        return v.es if isinstance(v, Vec) else None
    def deref(self, v, ty):
        if isinstance(v, GV): return MLV([(c, self.deref(x, ty)) for c, x in v.alts if not (isinstance(x, Ptr) and x.base.op == "null")])
        if isinstance(v, Ptr):
            if v.off is None: return LV(v.base, v.path, None, ty if not v.path else None)
            r = self.st.s.get(v.base)
            if r is None:
                y = self.strip(ty) if ty else None
                if y is not None and y["k"] == "rec" and not self.is_data(ty):
                    i = div_bytes(v.off, self.size(ty))
                    if i is ZERO: return LV(v.base, v.path, None, ty if not v.path else None)
                    if i is not None: return LV(v.base, v.path + (i,), None, ty)
                return LV(v.base, v.path, v.off, ty)
            for p in v.path: r = self.get_step(r, p)
            if isinstance(r, GV): r = r.alts[0][1]
            if isinstance(r, VFlat): return LV(v.base, v.path, v.off, ty)
            if isinstance(r, Vec):
                i = div_bytes(v.off, r.es)
                if i is not None: return LV(v.base, v.path + (i,))
                return LV(v.base, v.path, v.off, ty)
            if v.off is ZERO: return LV(v.base, v.path)
            return LV(v.base, v.path, v.off, ty)
        if isinstance(v, Sym): return LV(T("deref", v.t), (), None, ty)
        if isinstance(v, Poly): return LV(T("deref", v), (), ZERO, ty)
        if isinstance(v, (LV, MLV)): return v
        return self.temp(UNDEF)
    def e_ref(self, n):
        d = n["d"]
        if n["dk"] in ("var", "parm"):
            for f in (self.frames[-1],):
                x = f.env.get(d)
                if x is not None: return x
            # captured by a lambda body evaluated elsewhere, or an unbound variable
            return self.unbound(n)
        return self.global_(n)
    def unbound(self, n):
        g = self.p.globals.get(n["d"])
        if g is not None: return self.global_(n)
        self.note("unbound variable %s" % n["n"])
        return self.temp(self.sym(n["t"], T("sym", n["n"], n["d"])))
    def global_(self, n):
        q = n.get("q", n["n"])
        c = T("global", q)
        if c not in self.st.s:
            h = self.hooks.get("global:" + q)
            g = self.p.globals.get(n["d"])
            if h is not None: self.st.s[c] = h(self, n)
            elif g is not None and g.get("init") and g.get("const"):
                s0, f0 = self.st, self.frames
                self.frames = self.frames + [Frame({"file": g["file"], "q": q}, None)]
                try: v = self.ev(g["init"])
                finally: self.frames = f0
                self.st.s[c] = v
            else: self.st.s[c] = self.sym(n["t"], T("gval", q))
        return LV(c)
    def e_fref(self, n): return Ptr(T("fnptr", n["f"]))
    def e_mem(self, n):
        if n.get("ar"):
            v = self.ev(n["b"])
            l = self.deref(v, self.ty(n["b"]["t"]).get("el") if n["b"].get("t") else None)
        else: l = self.lv(n["b"])
        return self.member(l, n["n"])
    def member(self, l, name):
        if isinstance(l, MLV): return MLV([(c, self.member(x, name)) for c, x in l.alts])
        if l.off is not None:
            return LV(T("fld", T("load", self.ext_term(LV(l.base, l.path)), l.off, 0), name))
        r = self.st.s.get(l.base)
        if r is None:
            # symbolic object: materialise so that writes are remembered
            ty = l.ty
            if ty is not None and self.strip(ty)["k"] == "rec" and not l.path:
                v = self.sym(ty, l.base)
                if isinstance(v, Obj): self.st.s[l.base] = v
        l2 = LV(l.base, l.path + (name,), None, None)
        # reference members hold locations
        v = self.read(l2) if self.st.s.get(l.base) is not None else None
        if isinstance(v, (LV, MLV)): return v
        return l2
    def e_sub(self, n):
        b = n["b"]; i = self.num(self.ev(n["i"]))
        yb = self.strip(b["t"]) if b.get("t") else {"k": "?"}
        if yb["k"] == "arr" or yb["k"] == "ref":
            l = self.lv(b)
            return self.index(l, i, n["t"])
        p = self.ev(b)
        return self.deref(self.padd(p, i, n["t"]), n["t"])
    def index(self, l, i, ty):
        if isinstance(l, MLV): return MLV([(c, self.index(x, i, ty)) for c, x in l.alts])
        if l.off is not None: return LV(l.base, l.path, l.off + i * self.size(ty), ty)
        return LV(l.base, l.path + (i,), None, None)
    def padd(self, p, i, ty):
        if isinstance(p, GV): return gv([(c, self.padd(x, i, ty)) for c, x in p.alts])
        if isinstance(p, Ptr):
            if i is ZERO: return p if p.off is not None else Ptr(p.base, p.path, ZERO if not self.isobj(p) else None)
            return Ptr(p.base, p.path, (p.off if p.off is not None else ZERO) + i * self.size(ty))
        if isinstance(p, Sym): return Ptr(T("deref", p.t), (), i * self.size(ty))
        if isinstance(p, Poly): return p + i * self.size(ty)
        return p
    def isobj(self, p):
        return p.off is None
    def e_cast(self, n):
        ck = n["ck"]
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "LValueBitCast", "ConstructorConversion", "UserDefinedConversion", "Dynamic", "AddressSpaceConversion", "ArrayToPointerDecay_", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "AtomicToNonAtomic"):
            return getattr(self, "e_" + n["e"]["k"], self.e_unknown)(n["e"])
        if ck == "ArrayToPointerDecay":
            if n["e"]["k"] == "str": return self.e_str(n["e"])
            l = self.lv(n["e"])
            def f(l):
                if isinstance(l, MLV): return gv([(c, f(x)) for c, x in l.alts])
                return Ptr(l.base, l.path, ZERO if l.off is None else l.off)
            return f(l)
        if ck == "ToVoid": self.ev(n["e"]); return UNDEF
        v = self.ev(n["e"])
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "BooleanToSignedIntegral", "FloatingComplexCast"):
            if self.ty(n["t"])["k"] == "bool": return self.boolean(v)
            return self.num(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"): return self.boolean(v)
        if ck == "FloatingToIntegral":
            v = self.num(v)
            if v.is_const: return P(int(v.const))
            return P(T("trunc", v))
        if ck == "NullToPointer": return NULL
        if ck == "BitCast":
            if isinstance(v, Ptr) and v.off is None and v.base.op != "null" and not v.path:
                e = self.ty(self.ty(n["t"]).get("el"))
                if e["k"] in ("float", "int", "void") or self.is_data(self.ty(n["t"]).get("el")):
                    if e["k"] != "void": return Ptr(v.base, v.path, ZERO)
            return v
        if ck in ("PointerToIntegral", "IntegralToPointer"): return v
        return v
    def e_un(self, n):
        op = n["op"]
        if op == "!": return bnot(self.boolean(self.ev(n["e"])))
        if op == "&":
            e = n["e"]
            if e["k"] in ("fref", "mfref"): return self.ev(e)
            if e["k"] == "ref" and e["dk"] == "global" and "MPI" in e.get("n", "").upper(): return Ptr(T("global", e.get("q", e["n"])))
            l = self.lv(e)
            return self.addr(l)
        if op == "*":
            v = self.ev(n["e"])
            return self.deref(v, n["t"])
        if op in ("++", "--"):
            l = self.lv(n["e"]); o = self.read(l, n["e"]["t"])
            d = 1 if op == "++" else -1
            y = self.strip(n["e"]["t"])
            if y["k"] == "ptr": nv = self.padd(o, P(d), y["el"])
            else: nv = self.num(o) + d
            self.write(l, nv, n["e"]["t"])
            return o if n.get("post") else l
        v = self.ev(n["e"])
        if op == "-": return -self.num(v)
        if op == "+": return v
        if op == "~": return -self.num(v) - 1
        return self.e_unknown(n)
    def is_flt(self, t):
        y = self.strip(t)
        return y["k"] == "float" or self.is_data(t)
    def e_bin(self, n):
        op = n["op"]
        if op == "&&" or op == "||":
            a = self.boolean(self.ev(n["a"]))
            if self.st.dead: return FALSE
            f = lambda: self.boolean(self.ev(n["b"]))
            if op == "&&": return self.branch(a, f, lambda: FALSE) if a is not FALSE else FALSE
            return self.branch(a, lambda: TRUE, f)
        if op == ",": self.ev(n["a"]); return getattr(self, "e_" + n["b"]["k"], self.e_unknown)(n["b"])
        a = self.ev(n["a"]); b = self.ev(n["b"])
        return self.binop(op, a, b, n["a"].get("t"), n["b"].get("t"), n.get("t"))
    def binop(self, op, a, b, ta, tb, t):
        if op in ("==", "!="):
            r = self.eq(a, b)
            return r if op == "==" else bnot(r)
        pa = isinstance(a, Ptr) or (isinstance(a, GV) and any(isinstance(x, Ptr) for _, x in a.alts))
        pb = isinstance(b, Ptr) or (isinstance(b, GV) and any(isinstance(x, Ptr) for _, x in b.alts))
        if pa or pb:
            if op == "+":
                if pa: return self.padd(a, self.num(b), self.strip(ta).get("el"))
                return self.padd(b, self.num(a), self.strip(tb).get("el"))
            if op == "-":
                if not pb: return self.padd(a, -self.num(b), self.strip(ta).get("el"))
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base and a.path == b.path:
                    return div_bytes((a.off or ZERO) - (b.off or ZERO), self.size(self.strip(ta).get("el"))) or P(fresh("pdiff"))
                return P(T("pdiff", a, b)) if isinstance(a, Ptr) and isinstance(b, Ptr) else P(fresh("pdiff"))
            if op in ("<", "<=", ">", ">=") and isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base and a.path == b.path:
                a = a.off or ZERO; b = b.off or ZERO
            else: return P(fresh("ptrop"))
        x = self.num(a); y = self.num(b)
        fl = (ta is not None and self.is_flt(ta)) or (tb is not None and self.is_flt(tb))
        if op == "+": return x + y
        if op == "-": return x - y
        if op == "*": return x * y
        if op == "/": return x * inv(y) if fl else fdiv(x, y)
        if op == "%": return pmod(x, y)
        if op in ("<", "<=", ">", ">="):
            if fl:
                return fge0(y - x, True) if op == "<" else fge0(y - x) if op == "<=" else fge0(x - y, True) if op == ">" else fge0(x - y)
            return lt(x, y) if op == "<" else le(x, y) if op == "<=" else lt(y, x) if op == ">" else le(y, x)
        if op == "<<": return x * P(2 ** int(y.const)) if y.is_const else P(T("shl", x, y))
        if op == ">>": return fdiv(x, P(2 ** int(y.const))) if y.is_const else P(T("shr", x, y))
        if op == "&" and y is ONE: return pmod(x, P(2))
        if x.is_const and y.is_const and op in "&|^":
            p, q = int(x.const), int(y.const)
            return P(p & q if op == "&" else p | q if op == "|" else p ^ q)
        if isinstance(a, BD) and isinstance(b, BD) and op in "&|^": return band(a, b) if op == "&" else bor(a, b) if op == "|" else bnot(bite(a, b, bnot(b)))
        if op in "&|^" and x.is_const: x, y = y, x
        return P(T("bit" + op, x, y))
    def eq(self, a, b):
        if isinstance(a, GV): return bor(*[band(c, self.eq(x, b)) for c, x in a.alts])
        if isinstance(b, GV): return bor(*[band(c, self.eq(a, x)) for c, x in b.alts])
        if isinstance(a, Ptr) and a.base.op == "null": return self.isnull(b)
        if isinstance(b, Ptr) and b.base.op == "null": return self.isnull(a)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base is b.base and a.path == b.path: return beq(a.off or ZERO, b.off or ZERO)
            if a.base.op in ("cell", "heap") and b.base.op in ("cell", "heap", "global"): return FALSE
            if a.base.op == "global" and b.base.op in ("cell", "heap", "global"): return FALSE
            if a.base in self.distinct and b.base in self.distinct: return FALSE
            x, y = sorted((a, b), key=lambda p: p.term().id)
            return batom(T("pteq", x, y))
        if isinstance(a, Vec) and isinstance(b, Vec): return self.veqcond(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            r = TRUE
            for k in self.fields(a.rec): r = band(r, self.eq(self.get_step(a, k), self.get_step(b, k)))
            return r
        if isinstance(a, BD) and isinstance(b, BD): return bite(a, b, bnot(b))
        if isinstance(a, (Poly, BD)) and isinstance(b, (Poly, BD)): return beq(self.num(a), self.num(b))
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.t is b.t: return TRUE
            return batom(T("symeq", *sorted((a.t, b.t), key=lambda t: t.id)))
        if isinstance(a, (Sym, Ptr)) or isinstance(b, (Sym, Ptr)):
            x = self.num(a); y = self.num(b); return beq(x, y)
        return batom(fresh("eq?"))
    def veqcond(self, a, b):
        if isinstance(a, VElems) and isinstance(b, VElems):
            if len(a.el) != len(b.el): return FALSE
            r = TRUE
            for x, y in zip(a.el, b.el): r = band(r, self.eq(x, y))
            return r
        n = fresh_index("q")
        e = exists(bnot(self.eq(vec_get(a, P(n)), vec_get(b, P(n)))), n, a.size)
        return band(beq(a.size, b.size), bnot(e))
    def e_asg(self, n):
        op = n["op"]
        if op == "=":
            v = self.ev(n["b"]); l = self.lv(n["a"])
            if self.st.dead: return l
            self.write(l, self.coerce(v, n["a"].get("t")), n["a"].get("t"))
            return l
        v = self.ev(n["b"]); l = self.lv(n["a"])
        o = self.read(l, n["a"].get("t"))
        r = self.binop(op[:-1], o, v, n["a"].get("t"), n["b"].get("t"), n.get("t"))
        if self.ty(n["a"].get("t"))["k"] == "int" and n["b"].get("t") and self.is_flt(n["b"]["t"]): r = P(T("trunc", r)) if not r.is_const else P(int(r.const))
        self.write(l, self.coerce(r, n["a"].get("t")), n["a"].get("t"))
        return l
    def coerce(self, v, t):
        if t is None: return v
        k = self.strip(t)["k"]
        if k == "bool" and isinstance(v, Poly): return self.boolean(v)
        if k in ("int", "float") and isinstance(v, BD): return bd_poly(v)
        return v
    def e_cond(self, n):
        c = self.boolean(self.ev(n["c"]))
        if self.st.dead: return UNDEF
        if self.is_noret(n["b"]):
            return self.branch(c, lambda: self.raw(n["a"]), lambda: self.raw(n["b"]))
        n["_glv"] = n.get("_glv") if "_glv" in n else (self.is_glvalue(n["a"]) and self.is_glvalue(n["b"]))
        return self.branch(c, lambda: self.rawv(n["a"], n), lambda: self.rawv(n["b"], n))
    def is_glvalue(self, n):
        k = n["k"]
        if k in ("ref", "mem", "sub", "this"): return True
        if k == "un": return n["op"] == "*" or (n["op"] in ("++", "--") and not n.get("post"))
        if k == "cond": return self.is_glvalue(n["a"]) and self.is_glvalue(n["b"])
        if k in ("call", "mcall") and n.get("f") is not None:
            f = self.p.fns[n["f"]]
            return bool(f.get("ret")) and self.ty(f["ret"])["k"] == "ref"
        return k not in ("bin", "cast", "int", "float", "bool", "zeroinit", "ctor", "lambda", "new", "null", "str")
    def is_noret(self, n): return False
    def raw(self, n):
        if self.st.dead: return UNDEF
        if "l" in n: self.loc = (self.frames[-1].fn["file"] if self.frames else "?", n["l"])
        return getattr(self, "e_" + n["k"], self.e_unknown)(n)
    def rawv(self, n, parent):
        v = self.raw(n)
        if not parent["_glv"] and isinstance(v, (LV, MLV)): v = self.read(v, n.get("t"))
        return v
    def e_ilist(self, n):
        y = self.strip(n["t"])
        a = n.get("a") or []
        if self.is_arr(y):
            et = self.eltype(y); N = self.arrlen(y)
            if y["k"] == "rec" and len(a) == 1 and a[0]["k"] == "ilist": return self.e_ilist(dict(a[0], t=n["t"]))
            if y["k"] == "rec" and len(a) == 1 and a[0]["k"] == "zeroinit": return self.zero(n["t"])
            el = [self.ev(x) for x in a]
            if N is not None and N > 64: 
                el = el + []
                return VElems(et, self.size(et), el + [self.zero(et)] * max(0, N - len(el)) if N <= 4096 else el)
            while N is not None and len(el) < N: el.append(self.ev(n["fill"]) if n.get("fill") else self.zero(et))
            return VElems(et, self.size(et), [self.coerce(x, et) for x in el])
        if y["k"] == "rec":
            r = self.rect(y)
            fl = [f for f in (r.get("fields") or [])]
            bases = r.get("bases") or []
            f = {}
            vals = [(self.lv(x) if (i >= len(bases) and i - len(bases) < len(fl) and self.ty(fl[i - len(bases)]["t"])["k"] == "ref") else self.ev(x)) for i, x in enumerate(a)]
            for i, v in enumerate(vals):
                if i < len(bases):
                    if isinstance(v, Obj): f.update(v.f)
                elif i - len(bases) < len(fl): f[fl[i - len(bases)]["n"]] = self.coerce(v, fl[i - len(bases)]["t"])
            for x in fl:
                if x["n"] not in f: f[x["n"]] = self.zero(x["t"])
            if not r.get("ours"):
                if len(vals) == 1: return vals[0]
                return Sym(T("obj", normq(r["q"]), *[self.term(v) for v in vals]))
            return Obj(y["rec"], f)
        if len(a) == 1: return self.ev(a[0])
        if not a: return self.zero(n["t"])
        return Sym(T("list", *[self.term(self.ev(x)) for x in a]))
    def e_stdil(self, n):
        e = n["e"]
        y = self.ty(e["t"])
        if e["k"] == "ilist" and y["k"] == "arr":
            et = y["el"]
            return VElems(et, self.size(et), [self.ev(x) for x in e["a"]])
        return self.ev(e)
    def e_lambda(self, n):
        env = {}
        this = None
        for c in n.get("caps") or []:
            if c.get("this"): this = self.frames[-1].this; continue
            if c.get("ref"): env[c["d"]] = self.lv(c["e"])
            else:
                cell = T("cell", next(_cells), c["n"]); self.st.s[cell] = self.ev(c["e"]); env[c["d"]] = LV(cell)
        return Closure(n["f"], env, this)
    def e_new(self, n):
        at = n["at"]
        if n.get("n"):
            N = self.num(self.ev(n["n"]))
            et = at
            h = T("heap", next(_cells), self.ty(at)["s"])
            if self.is_data(et): self.st.s[h] = VFlat(et, self.size(et), N, h)
            else:
                m = fresh_index("v"); self.st.s[h] = VFn(et, self.size(et), N, m, self.zero(et))
            self.effect("new", ptr=Ptr(h, (), ZERO), type=self.ty(at)["s"], array=True)
            return Ptr(h, (), ZERO)
        v = self.ev(n["init"]) if n.get("init") else self.undef(at)
        h = T("heap", next(_cells), self.ty(at)["s"])
        if self.st.dead: return UNDEF
        self.st.s[h] = v
        self.effect("new", ptr=Ptr(h), type=self.ty(at)["s"], array=False, rec=self.ty(at).get("rec"))
        return Ptr(h)
    def e_del(self, n):
        v = self.ev(n["e"])
        self.effect("delete", ptr=v, array=bool(n.get("arr")), type=self.ty(self.ty(n["e"]["t"]).get("el"))["s"], rec=self.ty(self.ty(n["e"]["t"]).get("el")).get("rec"))
        return UNDEF
    def e_throw(self, n):
        t = self.ty(n["e"]["t"])["s"] if n.get("e") else "rethrow"
        loc = self.loc
        if n.get("e"): self.ev(n["e"])
        self.loc = loc
        self.throw_(t)
        return UNDEF
    def throw_(self, t):
        if self.st.dead: return
        self.effect("throw", type=t, nest=self.trynest)
        if self.trynest: self.tries[-1].append((self.st.copy(), t))
        self.st.g = FALSE
    tries = []
    def e_opaque(self, n): return UNDEF
    def e_unk(self, n): return self.e_unknown(n)
    def e_stmtexpr(self, n): return self.e_unknown(n)
    def e_inhctor(self, n): return UNDEF
    def e_mfref(self, n): return Sym(T("mfn", n.get("f", 0)))
    def e_arrcopy(self, n): return self.ev(n["e"]) if "e" in n else UNDEF
    def e_expr(self, n): return self.ev(n["e"])

    # ------------------------------------------------------------ terms of values
    def term(self, v):
        if isinstance(v, (Poly, BD, Term)): return v
        if isinstance(v, Sym): return v.t
        return v
    # ------------------------------------------------------------ calls
    def args(self, n, fn, a=None):
        """bind argument expressions by parameter kind: references become locations"""
        out = []
        ps = fn.get("params") or []
        for i, x in enumerate(n["a"] if a is None else a):
            pt = self.ty(ps[i]["t"]) if i < len(ps) else None
            if pt is not None and pt["k"] == "ref": out.append(self.lv(x))
            else: out.append(self.ev(x))
        return out
    def e_call(self, n):
        fn = self.p.fns[n["f"]]
        a = self.args(n, fn)
        if self.st.dead: return UNDEF
        return self.invoke(fn, None, a, n)
    def e_mcall(self, n):
        fn = self.p.fns[n["f"]]
        o = n["o"]
        if n.get("ar"):
            pv = self.ev(o)
            this = self.deref(pv, self.ty(o["t"]).get("el"))
        else: this = self.lv(o)
        a = self.args(n, fn)
        if self.st.dead: return UNDEF
        return self.mdispatch(fn, this, a, n, bool(n.get("virt")))
    def mdispatch(self, fn, this, a, n, virt):
        if fn["n"] == "operator()" and isinstance(this, LV):
            c = self.read(this)
            if isinstance(c, (Closure, GV)) and (isinstance(c, Closure) or all(isinstance(x, Closure) for _, x in c.alts)):
                return self.call_value(c, a, n)
        if isinstance(this, MLV):
            if len(this.alts) == 0: return UNDEF
            if len(this.alts) == 1: return self.mdispatch(fn, this.alts[0][1], a, n, virt)
            c, x = this.alts[0]
            rest = MLV([(constrain(c2, bnot(c)), y) for c2, y in this.alts[1:]])
            return self.branch(c, lambda: self.mdispatch(fn, x, a, n, virt), lambda: self.mdispatch(fn, rest, a, n, virt))
        if virt:
            rt = this.ty or (self.fn_cls_type(fn))
            v = self.read(this, rt)
            if isinstance(v, GV):
                return self.mdispatch(fn, MLV([(c, this) for c, _ in v.alts]) , a, n, virt) if False else self.vcall(fn, this, v, a, n)
            if isinstance(v, Obj) and v.base is None:
                fn = self.devirt(fn, v.rec)
            else: return self.vcall(fn, this, v, a, n)
        return self.invoke(fn, this, a, n)
    def fn_cls_type(self, fn):
        cls = fn.get("cls")
        for t in self.p.types.values():
            if t["k"] == "rec" and t.get("rec") == cls and not t.get("const"): return t["id"]
        for t in self.p.types.values():
            if t["k"] == "rec" and t.get("rec") == cls: return t["id"]
        return None
    def devirt(self, fn, rid):
        """final overrider of fn in class rid"""
        seen = self.overset(fn["id"])
        def go(r):
            rec = self.p.recs[r]
            for m in rec.get("methods") or []:
                if m in seen: return self.p.fns[m]
            for b in rec.get("bases") or []:
                x = go(b)
                if x is not None: return x
            return None
        return go(rid) or fn
    def overset(self, fid):
        s = {fid}; w = [fid]
        while w:
            x = w.pop()
            for y in self.p.over.get(x, []):
                if y not in s: s.add(y); w.append(y)
        return s
    def vcall(self, fn, this, v, a, n):
        h = self.hooks.get("vcall:" + fn["n"]) or self.hooks.get("vcall:*")
        if h is not None: return h(self, fn, this, v, a, n)
        who = v.base if isinstance(v, Obj) and v.base is not None else self.addr(this)
        if fn["n"] in self.vpure and fn.get("const"):
            t = T("vcall", fn["n"], who)
            return self.sym(fn["ret"], t)
        self.effect("vcall", fn=fn["n"], cls=fn.get("cls"), obj=who, args=self.snap(a, fn), ptypes=[p["t"] for p in fn["params"]])
        return self.sym(fn["ret"], T("vres", fn["n"], next(_cells))) if self.ty(fn["ret"])["k"] != "void" else UNDEF
    def snap(self, a, fn=None):
        """argument values with current contents for references and pointers"""
        out = []
        for i, x in enumerate(a):
            if isinstance(x, (LV, MLV)):
                t = None
                if fn is not None and i < len(fn["params"]): t = self.ty(fn["params"][i]["t"]).get("el")
                out.append(self.read(x, t))
            else: out.append(x)
        return out
    def e_ocall(self, n):
        fn = self.p.fns[n["f"]]
        if n.get("m"):
            a0 = n["a"][0]
            y = self.strip(a0["t"]) if a0.get("t") else {}
            this = self.lv(a0)
            if self.st.dead: return UNDEF
            a = self.args(n, fn, n["a"][1:])
            if self.st.dead: return UNDEF
            return self.mdispatch(fn, this, a, n, bool(n.get("virt")))
        a = self.args(n, fn)
        if self.st.dead: return UNDEF
        return self.invoke(fn, None, a, n)
    def e_callx(self, n):
        c = self.ev(n["c"])
        a = [self.ev(x) for x in n["a"]]
        if self.st.dead: return UNDEF
        return self.call_value(c, a, n)
    def call_value(self, c, a, n):
        if isinstance(c, GV):
            g, x = c.alts[0]
            rest = gv([(constrain(g2, bnot(g)), y) for g2, y in c.alts[1:]])
            return self.branch(g, lambda: self.call_value(x, a, n), lambda: self.call_value(rest, a, n))
        if isinstance(c, Ptr) and c.base.op == "fnptr": return self.invoke(self.p.fns[c.base.args[0]], None, a, n)
        if isinstance(c, Closure): return self.call_closure(c, a)
        if isinstance(c, Obj):
            for m in self.p.recs[c.rec].get("methods") or []:
                f = self.p.fns[m]
                if f["n"] == "operator()": return self.invoke(f, self.temp(c), a, n)
        self.effect("call", q="indirect", args=self.snap(a))
        return self.sym(n["t"], fresh("ind")) if n and n.get("t") else UNDEF
    def call_closure(self, c, a):
        fn = self.p.fns[c.fn]
        r = self.inline(fn, c.this, a, c.env)
        return r
    def e_ctor(self, n):
        fn = self.p.fns[n["f"]]
        cls = self.p.recs[fn["cls"]]
        q = normq(cls["q"])
        if n.get("elide") and len(n["a"]) == 1: return self.ev(n["a"][0])
        m = self.std.get(q + "::ctor")
        if m is not None and not fn.get("body"):
            a = [self.ev(x) if not (self.ty(p["t"])["k"] == "ref" and not self.ty(p["t"]).get("rv")) else self.lv(x) for x, p in zip(n["a"], fn["params"])]
            if self.st.dead: return UNDEF
            return m(self, n, fn, a)
        if (fn.get("copy") or fn.get("move")) and (fn.get("defaulted") or not fn.get("ours")) and n["a"]:
            v = self.lv(n["a"][0]) if fn.get("move") else None
            if fn.get("move"):
                x = self.read(v, n["t"])
                return x
            return self.ev(n["a"][0])
        if not fn.get("ours") or (not fn.get("body") and not fn.get("inits")):
            if q in ("std::vector", "std::array", "std::unique_ptr", "std::pair") and not n["a"]: return self.zero(n["t"])
            a = [self.ev(x) for x in n["a"]]
            h = self.hooks.get(q + "::ctor")
            if h: return h(self, n, fn, a)
            if cls.get("ours") and not n["a"]:
                y = self.strip(n["t"])
                return self.zero(n["t"]) if n.get("zero") else self.undef(n["t"])
            return Sym(T("obj", q, *[self.term(x) for x in a if not isinstance(x, (Undef,))]))
        h = self.hooks.get(normq(fn["q"]))
        if h is not None:
            a = self.args(n, fn)
            return h(self, fn, None, a, n)
        a = self.args(n, fn)
        if self.st.dead: return UNDEF
        return self.construct(fn, a, n)
    def construct(self, fn, a, n=None):
        """run a constructor, return the object value"""
        cell = T("cell", next(_cells), "obj")
        self.st.s[cell] = Obj(fn["cls"], {nm: self.undef(f["t"]) if self.ty(f["t"])["k"] != "ref" else UNDEF for nm, f in self.fields(fn["cls"]).items()})
        self.run_ctor(fn, LV(cell), a)
        if self.st.dead: return UNDEF
        v = self.st.s.pop(cell, UNDEF)
        return v
    def run_ctor(self, fn, this, a):
        self.inline(fn, this, a, None, ctor=True)
    def is_inlinable(self, fn): return fn.get("body") is not None
    def invoke(self, fn, this, a, n):
        q = normq(fn["q"])
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, fn, this, a, n)
            if r is not NotImplemented: return r
        if fn.get("body") is not None:
            if len(self.frames) > self.maxdepth or sum(1 for f in self.frames if f.fn is fn) > 3:
                self.note("recursion in " + q)
                return self.opaque_call(fn, this, a, q)
            return self.inline(fn, this, a)
        cls = None
        m = self.std.get(q)
        if m is None and fn.get("cls"):
            m = self.std.get(normq(self.p.recs[fn["cls"]]["q"]) + "::*")
        if m is not None:
            return m(self, n, fn, this, a)
        if fn.get("defaulted") or (fn.get("copy") or fn.get("move")):
            if fn["n"] == "operator=" and this is not None:
                self.write(this, self.snap(a, fn)[0]); return this
        if q.startswith("std::"): 
            m = self.std.get("std::*")
            if m is not None: return m(self, n, fn, this, a)
        return self.opaque_call(fn, this, a, q)
    def pointees(self, a):
        """contents of sequences / scalars passed by pointer"""
        out = []
        for x in a:
            v = None
            if isinstance(x, Ptr) and x.base in self.st.s:
                v = self.st.s[x.base]
                for p in x.path: v = self.get_step(v, p)
            out.append(v)
        return out
    def opaque_call(self, fn, this, a, q):
        d = dict(q=q, args=self.snap(a, fn), this=None if this is None else self.addr(this), pointees=self.pointees(a), file=fn.get("file"))
        if fn.get("noret"):
            self.effect("noret", q=q); self.st.g = FALSE; return UNDEF
        self.effect("call", **d)
        # scalars passed by address may have been written
        for x, p in zip(a, fn.get("params") or []):
            pt = self.ty(p["t"])
            if isinstance(x, Ptr) and pt["k"] == "ptr" and not self.ty(pt["el"]).get("const") and x.base in self.st.s and x.base.op in ("cell", "heap"):
                v = self.st.s[x.base]
                if isinstance(v, (Poly, BD, Ptr)) or v is UNDEF or isinstance(v, Sym) or x.path:
                    l = LV(x.base, x.path, x.off) if not (isinstance(v, (Poly, BD, Ptr)) or v is UNDEF) else LV(x.base, x.path)
                    try: old = self.read(l)
                    except Exception: old = UNDEF
                    if isinstance(old, (Poly, BD, Sym, Ptr)) or old is UNDEF:
                        self.write(l, self.sym(pt["el"], T("sym", "out:" + q, next(_cells))) if self.ty(pt["el"])["k"] != "void" else UNDEF)
        y = self.ty(fn["ret"])
        if y["k"] == "void": return UNDEF
        rt = self.sym(fn["ret"], T("res", q, next(_cells)))
        if y["k"] == "ref": return self.temp(rt)
        return rt
    def inline(self, fn, this, a, env=None, ctor=False):
        self.stats["functions"].add(fn["q"]); self.stats["calls"] += 1
        f = Frame(fn, this)
        if env: f.env.update(env)
        loc0 = self.loc
        for p, x in zip(fn["params"], a):
            if self.ty(p["t"])["k"] == "ref":
                if not isinstance(x, (LV, MLV)): x = self.temp(x)
                f.env[p["d"]] = x
            else:
                c = T("cell", f.uid, p["d"], p["n"])
                if isinstance(x, (LV, MLV)): x = self.read(x, p["t"])
                self.st.s[c] = self.coerce(x, p["t"]); f.env[p["d"]] = LV(c); f.cells.append(c)
        self.frames.append(f)
        try:
            if fn["k"] == "ctor":
                for i in fn.get("inits") or []:
                    if self.st.dead: break
                    self.ctor_init(f, i, this)
            if not self.st.dead: self.exec(fn["body"])
            if not self.st.dead: f.returns.append((self.st, UNDEF))
        finally:
            self.frames.pop()
        self.st, val = self.merge_all(f.returns)
        self.loc = loc0
        keep = None
        for c in f.cells:
            self.st.s.pop(c, None) if not (isinstance(val, (LV, MLV))) else None
        return val
    def ctor_init(self, f, i, this):
        if i.get("deleg") or i.get("base"):
            e = i["e"]
            if e["k"] == "ctor":
                fn = self.p.fns[e["f"]]
                if fn.get("body") is not None or fn.get("inits"):
                    a = self.args(e, fn)
                    if self.st.dead: return
                    q = normq(fn["q"])
                    self.run_ctor(fn, this, a)
                else:
                    b = self.p.recs[fn["cls"]]
                    if not b.get("ours"): [self.ev(x) for x in e["a"]]
                    elif fn.get("copy") or fn.get("move"):
                        v = self.ev(e["a"][0]); o = self.read(this)
                        if isinstance(v, Obj) and isinstance(o, Obj):
                            for k in self.fields(fn["cls"]): o = o.with_(k, self.get_step(v, k))
                            self.write(this, o)
            return
        name = i.get("n")
        fld = self.fields(f.fn["cls"]).get(name)
        if fld is None: return
        e = i["e"]
        if self.ty(fld["t"])["k"] == "ref": v = self.lv(e)
        else: v = self.coerce(self.ev(e), fld["t"])
        if self.st.dead: return
        self.write(LV(this.base, this.path + (name,)), v)

    # ------------------------------------------------------------ statements
    def exec(self, n):
        if n is None or self.st.dead: return
        getattr(self, "s_" + n["k"], self.s_expr_fallback)(n)
    def s_expr_fallback(self, n):
        if hasattr(self, "e_" + n["k"]): self.ev(n)
        else: self.note("unmodelled statement " + n["k"])
    def s_block(self, n):
        for s in n.get("s") or []:
            if self.st.dead: return
            self.exec(s)
    def s_null(self, n): pass
    def s_expr(self, n): self.raw(n["e"])
    def s_decl(self, n):
        f = self.frames[-1]
        for v in n.get("vars") or []:
            y = self.ty(v["t"])
            self.loc = (f.fn["file"], v.get("l", n.get("l", 0)))
            if y["k"] == "ref":
                x = self.lv(v["init"]) if v.get("init") else self.temp(UNDEF)
                if self.st.dead: return
                f.env[v["d"]] = x; continue
            if v.get("static") and y["k"] != "ref" and not y.get("s", "").startswith("const "):
                # a mutable static variable holds whatever earlier calls left in it
                c = T("global", "%s::%s" % (f.fn.get("q", ""), v["n"]))
                if c not in self.st.s: self.st.s[c] = self.sym(v["t"], T("gval", "%s::%s" % (f.fn.get("q", ""), v["n"])))
                f.env[v["d"]] = LV(c); continue
            val = self.ev(v["init"]) if v.get("init") else self.undef(v["t"])
            if self.st.dead: return
            c = T("cell", f.uid, v["d"], v["n"])
            if y["k"] == "arr" and self.is_data(y["el"]) and not isinstance(val, Vec) and y.get("n") is not None: val = VFlat(y["el"], self.size(y["el"]), P(y["n"]), c)
            if isinstance(val, VFlat) and val.mem.op == "cellmem": val = VFlat(val.et, val.es, val.size, c)
            self.st.s[c] = self.coerce(val, v["t"]); f.env[v["d"]] = LV(c)
            if c not in f.cells: f.cells.append(c)
    def s_if(self, n):
        if n.get("init"): self.exec(n["init"])
        if n.get("cv"): self.exec(n["cv"])
        if self.st.dead: return
        if n.get("cx") is not None and n.get("c") is None:
            c = TRUE if n["cx"] else FALSE
        else: c = self.boolean(self.ev(n["c"]))
        if self.st.dead: return
        self.branch(c, lambda: self.exec(n.get("a")), lambda: self.exec(n.get("b")))
    def s_ret(self, n):
        f = self.frames[-1]
        v = UNDEF
        if n.get("e") is not None:
            if self.ty(f.fn.get("ret"))["k"] == "ref": v = self.lv(n["e"])
            else: v = self.coerce(self.ev(n["e"]), f.fn.get("ret"))
        if self.st.dead: return
        f.returns.append((self.st, v))
        self.st = State(FALSE, {})
    def s_break(self, n):
        self.frames[-1].loops[-1].breaks.append((self.st, UNDEF)); self.st = State(FALSE, {})
    def s_continue(self, n):
        for l in reversed(self.frames[-1].loops):
            if not getattr(l, "switch", False):
                l.continues.append((self.st, UNDEF)); break
        self.st = State(FALSE, {})
    def s_switch(self, n):
        v = self.num(self.ev(n["c"])) if n.get("c") else ZERO
        ctx = LoopCtx(); ctx.switch = True
        fr = self.frames[-1]; fr.loops.append(ctx)
        body = n["b"]
        stmts = body.get("s") if body["k"] == "block" else [body]
        flat = []
        def flatten(s):
            if s["k"] in ("case", "default"):
                flat.append(("lab", s)); 
                if s.get("b"): flatten(s["b"])
            else: flat.append(("st", s))
        for s in stmts or []: flatten(s)
        cv = {id(x[1]): self_const(x[1], self) for x in flat if x[0] == "lab" and x[1]["k"] == "case"}
        none = TRUE
        for w in cv.values(): none = band(none, bnot(beq(v, w)))
        s0 = self.st
        self.st = State(FALSE, {})
        for kind, s in flat:
            if kind == "lab":
                c = beq(v, cv[id(s)]) if s["k"] == "case" else none
                ent = s0.copy(band(s0.g, c))
                if not ent.dead and self.feasible(ent):
                    self.st, _ = self.merge_all([(self.st, UNDEF), (ent, UNDEF)])
            elif not self.st.dead: self.exec(s)
        fr.loops.pop()
        exits = ctx.breaks + [(self.st, UNDEF)]
        if not any(x[1]["k"] == "default" for x in flat if x[0] == "lab"): exits.append((s0.copy(band(s0.g, none)), UNDEF))
        self.st, _ = self.merge_all(exits)
    def feasible(self, st):
        return st.g is not FALSE
    def s_try(self, n):
        self.trynest += 1
        self.tries = self.tries + [[]]
        s0 = self.st.copy()
        self.exec(n.get("b") or n.get("a"))
        thrown = self.tries[-1]
        self.tries = self.tries[:-1]
        self.trynest -= 1
        outs = [(self.st, UNDEF)]
        hs = n.get("h") or []
        ths = list(thrown)
        may = batom(T("exc", self.loc[1], next(_cells)))
        for h in hs:
            t = self.ty(h.get("t"))["s"] if h.get("t") else "..."
            # exceptions of opaque origin: handler body evaluated from the entry state under a fresh atom
            sts = [(s, UNDEF) for s, tt in ths if t == "..." or exc_match(tt, t)]
            ths = [(s, tt) for s, tt in ths if not (t == "..." or exc_match(tt, t))]
            ent, _ = self.merge_all(sts) if sts else (State(FALSE, {}), None)
            if self.hooks.get("try:opaque"):
                o = s0.copy(band(s0.g, may))
                ent, _ = self.merge_all([(ent, UNDEF), (o, UNDEF)])
            if not ent.dead:
                self.st = ent
                self.effect("caught", type=t)
                if h.get("var"): self.s_decl({"vars": [h["var"]]})
                self.exec(h["b"]); outs.append((self.st, UNDEF))
        if self.tries and ths: self.tries[-1].extend(ths)
        self.st, _ = self.merge_all(outs)
    def s_while(self, n):
        def cond():
            if n.get("cv"): self.exec(n["cv"])
            return self.cond_parts(n["c"])
        self.loop(cond, lambda: self.exec(n.get("b")), lambda: None, id(n))
    def s_do(self, n):
        fr = self.frames[-1]
        ctx = LoopCtx(); fr.loops.append(ctx)
        self.exec(n.get("b"))
        fr.loops.pop()
        self.st, _ = self.merge_all([(self.st, UNDEF)] + ctx.continues)
        if not self.st.dead: self.loop(lambda: self.cond_parts(n["c"]), lambda: self.exec(n.get("b")), lambda: None)
        self.st, _ = self.merge_all([(self.st, UNDEF)] + ctx.breaks)
    def s_for(self, n):
        if n.get("init"): self.exec(n["init"])
        self.loop(lambda: self.cond_parts(n["c"]) if n.get("c") else TRUE, lambda: self.exec(n.get("b")), lambda: self.ev(n["inc"]) if n.get("inc") else None, id(n))
    def cond_parts(self, c):
        return self.boolean(self.ev(c))
    def s_rfor(self, n):
        r = n["range"]
        l = self.lv(r)
        v = self.read(l, r.get("t"))
        fr = self.frames[-1]
        var = n["var"]
        cnt = T("cell", fr.uid, "rfor", n.get("l", 0), var["d"])
        def size():
            v = self.read(l, r.get("t"))
            if isinstance(v, Vec): return v.size
            if isinstance(v, GV): return self.num(gv([(c, x.size if isinstance(x, Vec) else UNDEF) for c, x in v.alts]))
            return P(T("size", self.term(v)) if isinstance(v, Sym) else fresh("size"))
        N = size()
        self.st.s[cnt] = ZERO
        def body():
            i = self.st.s[cnt]
            if self.ty(var["t"])["k"] == "ref":
                fr.env[var["d"]] = self.index(l, i, self.ty(var["t"])["el"])
            else:
                c = T("cell", fr.uid, var["d"], var["n"])
                self.st.s[c] = self.read(self.index(l, i, var["t"]), var["t"]); fr.env[var["d"]] = LV(c)
            self.exec(n.get("b"))
        def inc(): self.st.s[cnt] = self.st.s[cnt] + 1
        self.loop(lambda: lt(self.st.s[cnt], N), body, inc, id(n))
        self.st.s.pop(cnt, None)
    def repeat(self, N, body):
        """for i in [0,N): body(i) -- used by library models"""
        cnt = T("cell", next(_cells), "rep"); self.st.s[cnt] = ZERO
        fr = self.frames[-1]
        def inc(): self.st.s[cnt] = self.st.s[cnt] + 1
        self.loop(lambda: lt(self.st.s[cnt], N), lambda: body(self.st.s[cnt]), inc)
        self.st.s.pop(cnt, None)

    # ------------------------------------------------------------ loops
    UNROLL = 16
    def loop(self, cond, body, inc, key=None):
        fr = self.frames[-1]
        s0 = self.st; nrec = len(self.rec); nret = len(fr.returns); ntry = [len(x) for x in self.tries]
        self.st = s0.copy()
        ctx = LoopCtx(); fr.loops.append(ctx)
        ok = False; outs = []
        it = 0
        try:
            while True:
                c = self.decide(cond())
                if self.st.dead: ok = True; break
                if c is FALSE: outs.append((self.st, UNDEF)); ok = True; break
                if c is not TRUE: break
                if it >= self.UNROLL: break
                it += 1
                body()
                self.st, _ = self.merge_all([(self.st, UNDEF)] + ctx.continues); ctx.continues = []
                if self.st.dead: ok = True; break
                inc()
        finally:
            fr.loops.pop()
        if ok:
            self.stats["unrolled"] += 1
            self.st, _ = self.merge_all(outs + ctx.breaks)
            return
        del self.rec[nrec:]; del fr.returns[nret:]
        for x, k in zip(self.tries, ntry): del x[k:]
        self.st = s0
        self.summarise(cond, body, inc, key)

    def diff(self, a, b, path=()):
        """leaf paths at which two values differ"""
        if veq(a, b): return []
        if isinstance(a, Obj) and isinstance(b, Obj) and a.rec == b.rec and a.base is b.base:
            out = []
            for k in set(a.f) | set(b.f):
                x = a.f.get(k); y = b.f.get(k)
                if x is None: x = self.objfield(a, k)
                if y is None: y = self.objfield(b, k)
                out += self.diff(x, y, path + (k,))
            return out
        if isinstance(a, VElems) and isinstance(b, VElems) and len(a.el) == len(b.el):
            out = []
            for i, (x, y) in enumerate(zip(a.el, b.el)): out += self.diff(x, y, path + (P(i),))
            return out
        return [path]
    def getp(self, st, base, path):
        v = st.s.get(base)
        if v is None: return None
        for p in path: v = self.get_step(v, p)
        return v
    def setp(self, st, base, path, val):
        old, self.st = self.st, st
        try: st.s[base] = self.set_path(st.s[base], path, val, None, None)
        finally: self.st = old

    def run_body(self, st, cond, body, inc):
        """one abstract iteration from st; returns (cond, end state, effects, exits)"""
        fr = self.frames[-1]
        rec0, self.rec = self.rec, []
        ret0, fr.returns = fr.returns, []
        tr0, self.tries = self.tries, [[] for _ in self.tries]
        ctx = LoopCtx(); fr.loops.append(ctx)
        g0 = st.g
        try:
            self.st = st
            c = self.decide(cond())
            if self.st.dead: c = FALSE
            self.st.g = band(self.st.g, c)
            gb = self.st.g
            if not self.st.dead: body()
            self.st, _ = self.merge_all([(self.st, UNDEF)] + ctx.continues)
            if not self.st.dead: inc()
            end = self.st
            return c, gb, end, self.rec, ctx.breaks, fr.returns, self.tries
        finally:
            fr.loops.pop()
            self.rec = rec0; fr.returns = ret0; self.tries = tr0

    def enc(self, b):
        u = self.frames[-1].uid
        return ("F",) + b.args[1:] if b.op == "cell" and b.args[0] == u else b
    def dec(self, b):
        return T("cell", self.frames[-1].uid, *b[1:]) if isinstance(b, tuple) else b
    _fixed = set()
    def summarise(self, cond, body, inc, key=None, key_inv=None):
        self.stats["loops"] += 1
        s0 = self.st
        fr = self.frames[-1]
        env0 = dict(fr.env)
        n = fresh_index("n")
        phis = {}      # (base, path) -> [phi term, init value, kind]
        sol = {}       # phi term -> value as function of n (or None)
        bases = list(s0.s.keys())
        N = None
        final = None
        predicted = {}
        if key is not None:
            for (b, pa), dl in self._lc.get(key, {}).items():
                b = self.dec(b)
                if b not in s0.s: continue
                init = self.getp(s0, b, pa)
                ph = phis[(b, pa)] = [fresh("phi"), init, None]
                if dl is not None and isinstance(init, Poly):
                    sol[ph[0]] = init + P(n) * dl; predicted[ph[0]] = dl
        for rnd in range(14):
            st = s0.copy()
            for (b, pa), ph in phis.items():
                self.setp(st, b, pa, self.phi_value(ph, sol))
            pre = State(st.g, dict(st.s))
            c, gb, end, effs, brk, rets, thr = self.run_body(st, cond, body, inc)
            # newly modified locations
            new = []
            for e in [end] + [x for x, _ in brk]:
                if e.dead: continue
                for b in bases:
                    x = pre.s.get(b); y = e.s.get(b)
                    if y is None or x is y: continue
                    for pa in self.diff(x, y):
                        k = (b, pa)
                        if any(b2 is b and pa[:len(p2)] == p2 for (b2, p2) in phis): continue
                        if k not in new: new.append(k)
            if new:
                for b, pa in new:
                    # drop finer phis below a coarser one
                    for k2 in [k2 for k2 in phis if k2[0] is b and k2[1][:len(pa)] == pa]: del phis[k2]
                    init = self.getp(s0, b, pa)
                    phis[(b, pa)] = [fresh("phi"), init, None]
                sol = {}; predicted = {}
                continue
            if predicted and not end.dead:
                wrong = False
                for k, ph in phis.items():
                    if ph[0] in predicted:
                        e = self.getp(end, *k)
                        if not (isinstance(e, Poly) and e is ph[1] + (P(n) + 1) * predicted[ph[0]]): wrong = True
                if wrong: sol = {}; predicted = {}; continue
            # sequences whose length the loop does not change
            if not end.dead:
                ch = False
                for k, ph in phis.items():
                    if isinstance(ph[1], Vec) and not isinstance(ph[1], VFlat) and ph[0] not in self._fixed:
                        e = self.getp(end, *k)
                        if isinstance(e, VUpd) and isinstance(e.v, VSegs) and len(e.v.segs) == 1 and e.v.segs[0][0] == "P" and e.v.segs[0][1] is ph[0]:
                            self._fixed.add(ph[0]); ch = True
                if ch:
                    sol = {t: v for t, v in sol.items() if t in predicted}
                    continue
            # solve
            progress = False
            if not end.dead:
                m = {ph[0]: sol[ph[0]] for ph in phis.values() if sol.get(ph[0]) is not None and isinstance(sol[ph[0]], (Poly, BD))}
                unsolved = [(k, ph) for k, ph in phis.items() if ph[0] not in sol]
                again = True
                while again:
                    again = False
                    for k, ph in list(unsolved):
                        e = self.getp(end, *k)
                        if e is None: continue
                        others = [p2[0] for k2, p2 in unsolved if p2 is not ph]
                        s = self.solve(ph, e, n, others, gb, s0)
                        if s is not None:
                            sol[ph[0]] = s; unsolved.remove((k, ph)); progress = True; again = False
                            break
                    if progress: break
            if progress: continue
            unsolved = [(k, ph) for k, ph in phis.items() if ph[0] not in sol]
            if unsolved:
                # no closed form: opaque function of the iteration
                k, ph = unsolved[0]
                self.note("loop value without closed form: %s" % (k,))
                sol[ph[0]] = ("havoc", fresh("havoc"))
                continue
            final = (c, gb, end, effs, brk, rets, thr)
            break
        if final is None:
            self.note("loop analysis did not converge"); final = (c, gb, end, effs, brk, rets, thr)
        c, gb, end, effs, brk, rets, thr = final
        if key is not None:
            d = {}
            for (b, pa), ph in phis.items():
                s = sol.get(ph[0]); dl = None
                if isinstance(s, Poly) and isinstance(ph[1], Poly):
                    x = s - ph[1]
                    if len(x.m) == 1 and ((n.id, 1),) in x.m: dl = x.m[((n.id, 1),)]
                d[(self.enc(b), pa)] = dl
            self._lc[key] = d
        # trip count
        rng, N, rest = self.trip(c, n)
        if rest is not TRUE and rest is not None and rng is not None and key_inv is None:
            # a conjunct of the condition that no iteration changes: if (inv) for (; range; )
            D = deps(bd_poly(rest))
            if n not in D and not any(ph[0] in D for ph in phis.values()):
                outs = []
                self.st = s0.copy(band(s0.g, bnot(rest)))
                if not self.st.dead: cond(); outs.append((self.st, UNDEF))
                self.st = s0.copy(band(s0.g, rest))
                if not self.st.dead: self.summarise(cond, body, inc, key, key_inv=rest); outs.append((self.st, UNDEF))
                self.st, _ = self.merge_all(outs)
                return
        if end.dead and not any(not x.dead for x, _ in brk): pass
        exit_g = FALSE
        exits = []
        def relg(g): return constrain(g, gb)
        if rest is not TRUE:
            # loop-head exit inside the range
            pass
        E = FALSE
        for x, _ in brk: E = bor(E, relg(x.g))
        for x, _ in rets: E = bor(E, relg(x.g))
        for lst in thr:
            for x, _ in lst: E = bor(E, relg(x.g))
        head = bnot(rest) if rest is not TRUE else FALSE
        # E is relative to the body guard (range & rest)
        Eall = bor(head, band(rest, E))
        if end.dead and not thr_any(thr) and not brk and not rets: # every iteration dies (noreturn)
            Eall = TRUE
        if end.dead: Eall = TRUE
        g0 = s0.g
        if Eall is FALSE:
            X = FALSE; F = None; Neff = N; Nloop = N
        else:
            X = exists(Eall, n, N)
            F = first(Eall, n, N) if Eall is not TRUE else ZERO
            Neff = ite(X, F, N); Nloop = ite(X, F + 1, N)
            if head is not FALSE and E is FALSE: Nloop = Neff
        # effects
        if effs:
            eb = [e.gmap(lambda g: constrain(constrain(g, gb), g0)) for e in effs]
            eb = [x for x in eb if x.g is not FALSE]
            # throw / noret paths end the iteration; their guards stay on the effects themselves
            if eb: self.rec.append(Eff("loop", g0, {}, self.loc, n, Nloop, eb))
        vec_final = {}
        def at(k):
            """value of every loop-carried location after k full iterations"""
            out = {}
            for (b, pa), ph in phis.items(): out[(b, pa)] = self.phi_at(ph, sol, end, (b, pa), n, k, Neff)
            return out
        # values reachable after the loop
        def close(st, k, inbody):
            """rewrite a state expressed over n / vec phis to iteration k"""
            mm = {n: k}
            for kk, ph in phis.items():
                s = sol.get(ph[0])
                if isinstance(s, tuple) and s[0] == "vec": mm[ph[0]] = self.phi_at(ph, sol, end, kk, n, k, Neff)
                elif isinstance(s, tuple) and s[0] == "havoc": mm[ph[0]] = P(T("havocv", s[1], k))
            ns = {}
            for b in st.s:
                v = st.s[b]
                if b in s0.s and v is s0.s[b]: ns[b] = v
                else:
                    ns[b] = subst(v, mm) if v is not UNDEF else v
            return ns, mm
        outs = []
        # normal exit
        nx = s0.copy(band(g0, bnot(X)) if X is not FALSE else g0)
        if head is not FALSE:
            nx = s0.copy(g0 if E is FALSE else band(g0, bnot(exists(band(rest, E), n, N))))
        fin = at(Neff if head is not FALSE else N)
        for (b, pa), v in fin.items(): self.setp(nx, b, pa, v)
        if not nx.dead: outs.append((nx, UNDEF))
        if E is not FALSE:
            for x, _ in brk:
                ns, mm = close(x, F, True)
                g = band(g0, X, subst(relg(x.g), mm))
                keep = {b: ns[b] for b in ns if b in s0.s}
                outs.append((State(g, {**s0.s, **keep}), UNDEF))
            for x, v in rets:
                ns, mm = close(x, F, True)
                g = band(g0, X, subst(relg(x.g), mm))
                if isinstance(v, (LV, MLV)) or isinstance(v, (Poly, BD, Vec, Obj, Ptr, GV, Sym)): v = subst(v, mm)
                fr.returns.append((State(g, ns), v))
            for dst, lst in zip(self.tries, thr):
                for x, t in lst:
                    ns, mm = close(x, F, True)
                    dst.append((State(band(g0, X, subst(relg(x.g), mm)), ns), t))
        fr.env = {**fr.env, **env0}
        self.st, _ = self.merge_all(outs)

    def phi_value(self, ph, sol):
        t, init, _ = ph
        s = sol.get(t)
        if s is not None and not isinstance(s, tuple): return s
        if isinstance(s, tuple) and s[0] == "havoc":
            return self.like(init, s[1])
        return self.like(init, t)
    def like(self, init, t):
        if isinstance(init, Poly): return P(t)
        if isinstance(init, BD): return batom(t)
        if isinstance(init, Ptr) and init.base.op != "null": return Ptr(init.base, init.path, P(t))
        if isinstance(init, VFlat): return init
        if isinstance(init, Vec): return VSegs(init.et, init.es, (("P", t, init.size if t in self._fixed else P(T("size", t))),))
        if init is UNDEF: return UNDEF
        return Sym(t)

    def solve(self, ph, e, n, others, gb, s0):
        """closed form of a loop-carried value as a function of the iteration number"""
        t, init, _ = ph
        d = deps(e) if e is not UNDEF else frozenset()
        vecs = [o for o in others]
        if any(o in d for o in others): return None
        if isinstance(init, Vec) and not isinstance(init, VFlat):
            return ("vec",)
        m = fresh_index("m")
        if isinstance(e, Poly) and (isinstance(init, Poly) or init is UNDEF):
            x0 = init if isinstance(init, Poly) else P(T("undef"))
            if t not in d:
                return self.overwritten(x0, e, n)
            dl = e - P(t)
            if t not in deps(dl):
                return x0 + psum(subst(dl, {n: P(m)}), m, P(n))
            A = ZERO; B = ZERO; okk = True
            for k, cf in e.m.items():
                ex = dict(k).get(t.id, 0)
                if ex == 0: B = B + Poly({k: cf})
                elif ex == 1: A = A + Poly({tuple(x for x in k if x[0] != t.id): cf})
                else: okk = False
            if okk and t not in deps(A) and t not in deps(B):
                cnd = self.poly_bool(A)
                if cnd is not None:
                    upd = bnot(cnd)
                    f = self.poly_under(B, upd)
                    ex = exists(subst(upd, {n: P(m)}), m, P(n))
                    la = last(subst(upd, {n: P(m)}), m, P(n))
                    return ite(ex, subst(f, {n: la}), x0)
                if n not in deps(A):
                    if B is ZERO: return x0 * power(A, P(n))
                if B is ZERO: return x0 * P(T("pprod", dom.bound(dom._maxbound(A)), subst(A, {n: P(dom.bound(dom._maxbound(A)))}), P(n)))
            # running maximum / minimum
            at0 = e.atom_term()
            if at0 is not None and at0.op in ("rmax", "rmin") and at0.args[3] is P(t) and t not in deps(at0.args[1]) and t not in deps(at0.args[2]):
                return self.redux(at0.op, P(T(at0.op, at0.args[0], at0.args[1], at0.args[2], x0)), n, x0)
            for a in e.atoms():
                at_ = Term._byid[a]
                if at_.op == "max0" and t in deps(at_):
                    q = at_.args[0]
                    for f in (q + P(t), P(t) - q):
                        if t in deps(f): continue
                        if pmax(P(t), f) is e or pmax(f, P(t)) is e: return self.redux("rmax", f, n, x0)
                        if pmin(P(t), f) is e or pmin(f, P(t)) is e: return self.redux("rmin", f, n, x0)
            return None
        if isinstance(e, BD) and isinstance(init, BD):
            c1 = subst(e, {t: TRUE}); c0 = subst(e, {t: FALSE})
            c1 = boolsub(e, t, TRUE); c0 = boolsub(e, t, FALSE)
            if t in deps(c1) or t in deps(c0): return None
            if c1 is c0: return self.overwritten_b(init, c1, n)
            mm = {n: P(m)}
            if c0 is FALSE: return band(init, bnot(exists(subst(bnot(c1), mm), m, P(n))))
            if c1 is TRUE: return bor(init, exists(subst(c0, mm), m, P(n)))
            return None
        if isinstance(init, Ptr) and isinstance(e, Ptr) and e.base is init.base and e.path == init.path and init.off is not None and e.off is not None:
            dl = e.off - P(t)
            if t not in deps(dl): return Ptr(init.base, init.path, init.off + psum(subst(dl, {n: P(m)}), m, P(n)))
            if t not in deps(e.off): return Ptr(init.base, init.path, self.overwritten(init.off, e.off, n))
            return None
        if e is UNDEF: return UNDEF if init is UNDEF else None
        if t not in d:
            # plainly overwritten non-numeric value
            if init is UNDEF: return subst(e, {n: P(n) - 1})
            return vite(eq0(P(n)), init, subst(e, {n: P(n) - 1}))
        return None
    def redux(self, op, f, n, x0):
        b = dom.bound(dom._maxbound(f))
        return P(T(op, b, subst(f, {n: P(b)}), P(n), x0))
    def overwritten(self, x0, e, n):
        if n not in deps(e): return ite(eq0(P(n)), x0, e)
        return ite(eq0(P(n)), x0, subst(e, {n: P(n) - 1}))
    def overwritten_b(self, x0, e, n):
        return bite(eq0(P(n)), x0, subst(e, {n: P(n) - 1}))
    def poly_bool(self, A):
        """BD whose indicator is A, if A is 0/1-valued"""
        b = dom._rev.get(A)
        if b is not None: return b
        if all(all(Term._byid[a].op == "ind" for a, _ in k) for k in A.m):
            z = dom._ind_eq(A); o = dom._ind_eq(A - 1)
            if bor(z, o) is TRUE: return o
        return None
    def poly_under(self, B, g):
        """B simplified assuming g"""
        pos, neg = bd_literals(g)
        for a in pos: B = dom.subst_atom(B, T("ind", a), ONE)
        for a in neg: B = dom.subst_atom(B, T("ind", a), ZERO)
        return B
    def trip(self, c, n):
        """loop condition as a function of n -> (range literal, N, remaining condition)"""
        if c is FALSE: return FALSE, ZERO, TRUE
        best = None
        if c is not TRUE:
            pos, neg = bd_literals(c)
            for a, s in [(a, True) for a in pos] + [(a, False) for a in neg]:
                if a.op not in ("ge", "eq"): continue
                q = a.args[0]
                if n not in deps(q): continue
                k = q.m.get(((n.id, 1),), 0)
                r = q - P(n) * k
                if k == 0 or n in deps(r): continue
                if a.op == "ge":
                    if not s: q = -q - 1; k = -k; r = q - P(n) * k
                    if k < 0: N = max0(fdiv(r + (-k), P(-k))) if k != -1 else max0(r + 1)
                    else: continue
                else:
                    if s: continue
                    N = exact_or_fdiv(-r, k)
                if N is None: continue
                lit = batom(a) if s else bnot(batom(a))
                best = (lit, N); 
                if a.op == "ge": break
        if best is None:
            # nonlinear or opaque condition
            Nt = P(fresh("trip"))
            if c is TRUE: return TRUE, P(T("infinite")), TRUE
            return None, P(T("infinite")), c
        lit, N = best
        rest = constrain(c, lit)
        return lit, self.simpN(N), rest
    def simpN(self, N):
        # max0(x) with x>=0 entailed
        t = N.atom_term()
        if t is not None and t.op == "max0":
            f = relevant(self.guard_facts(), t.args[0])
            if f and entails(f, t.args[0]): return t.args[0]
        return N
    def phi_at(self, ph, sol, end, key, n, k, N):
        """value of a loop-carried location after k iterations"""
        t, init, _ = ph
        s = sol.get(t)
        if s is UNDEF: return UNDEF
        if s is None: return UNDEF
        if not isinstance(s, tuple): return subst(s, {n: k})
        if s[0] == "havoc": return self.like(init, T("havocv", s[1], k))
        e = self.getp(end, *key) if not end.dead else None
        if e is None: return init
        return self.vec_after(t, init, e, n, k)
    def vec_after(self, t, init, e, n, k):
        """content of a sequence after k iterations of a loop whose body maps phi t to e"""
        if isinstance(e, VSegs) and e.segs and e.segs[0][0] == "P" and e.segs[0][1] is t:
            tail = e.segs[1:]
            if not tail: return init
            # the running size and previously pushed entries
            tsz = seg_size(tail)
            m = fresh_index("m")
            szn = init.size + psum(subst(tsz, {n: P(m)}), m, P(n)) if t not in deps(tsz) else None
            if szn is not None:
                sizet = T("size", t)
                back = T("idx", t, P(sizet) - 1)
                m2 = {}
                if len(tail) == 1 and tail[0][0] == "e" and isinstance(tail[0][1], Poly) and back.id in tail[0][1].atoms():
                    dl = tail[0][1] - P(back)
                    if t not in deps(dl) and init.size is not ZERO:
                        b0 = vec_get(init, init.size - 1)
                        v = b0 + psum(subst(dl, {n: P(m)}), m, P(n) + 1)
                        tail = (("e", v),)
                tail = tuple(sub_term(x, sizet, szn) for x in tail)
            if t in seg_deps(("L", fresh_index(), ONE, TRUE, tuple(tail))):
                self.note("sequence built from its own entries")
            n2 = fresh_index("s")
            q = {n: P(n2)}
            return simplify_vec(mk_segs(init.et, init.es, vsegs(init) + (("L", n2, k, TRUE, tuple(seg_subst(x, q) for x in tail)),)))
        if isinstance(e, VUpd) and isinstance(e.v, VSegs) and len(e.v.segs) == 1 and e.v.segs[0][0] == "P" and e.v.segs[0][1] is t:
            cur = init
            size = init.size
            if len(e.ups) == 1 and n not in deps(e.ups[0][1]) and t not in deps(e.ups[0][1]):
                # every iteration writes the same entry
                g, i, x = e.ups[0]
                m = fresh_index("m"); q = {n: P(m)}
                same = T("idx", t, i); x = fix_size(x, t, size); g = fix_size(g, t, size)
                if t not in deps(g):
                    if isinstance(x, Poly) and same.id in x.atoms() and t not in deps(x - P(same)):
                        return vec_set(init, i, vec_get(init, i) + psum(subst(bd_poly(g) * (x - P(same)), q), m, k))
                    if t not in deps(x):
                        hit = subst(g, q)
                        return vec_set(init, i, subst(subst(x, q), {m: last(hit, m, k)}), exists(hit, m, k))
            j = fresh_index("v")
            body = vec_get(init, P(j))
            for g, i, x in e.ups:
                i = fix_size(i, t, size); x = fix_size(x, t, size); g = fix_size(g, t, size)
                same = T("idx", t, i)
                prev = T("idx", t, i - 1)
                if isinstance(x, Poly) and t in deps(x) and same.id in x.atoms() and t not in deps(x - P(same)):
                    # accumulation into entry i(n)
                    m = fresh_index("m"); q = {n: P(m)}
                    dl = bd_poly(band(g, beq(i, P(j)))) * (x - P(same))
                    body = body + psum(subst(dl, q), m, k); continue
                if isinstance(x, Poly) and t in deps(x) and prev.id in x.atoms() and t not in deps(x - P(prev)) and g is TRUE:
                    k1 = i.m.get(((n.id, 1),), 0); r = i - P(n) * k1
                    if k1 == 1 and n not in deps(r):
                        dl = x - P(prev); m = fresh_index("m")
                        v = vec_get(init, r - 1) + psum(subst(dl, {n: P(m)}), m, P(j) - r + 1)
                        body = vite(band(ge0(P(j) - r), lt(P(j) - r, k)), v, body); continue
                # entries read before they are written in this loop, or the same entry (record update)
                if t in deps(x) or t in deps(g):
                    x = resolve_self(x, t, i, init); g = resolve_self(g, t, i, init)
                m = fresh_index("m"); q = {n: P(m)}
                hit = band(subst(g, q), beq(subst(i, q), P(j)))
                ex = exists(hit, m, k); la = last(hit, m, k)
                body = vite(ex, subst(subst(x, q), {m: la}), body)
            if isinstance(init, VElems):
                return VElems(init.et, init.es, [subst(body, {j: P(a)}) for a in range(len(init.el))])
            return VFn(init.et, init.es, size, j, body)
        if t not in deps(e):
            return vite(eq0(k), init, subst(e, {n: k - 1}))
        self.note("sequence update without closed form")
        return self.like(init, T("havocv", t, k))

class MLV:
    """guarded alternatives of locations"""
    def __init__(self, alts):
        out = []
        for c, x in alts:
            if c is FALSE: continue
            if isinstance(x, MLV): out += [(band(c, c2), y) for c2, y in x.alts]
            else: out.append((c, x))
        self.alts = out
    def __repr__(self): return "MLV(%s)" % self.alts
    def deps_(self): 
        s = frozenset()
        for c, x in self.alts: s |= deps(c) | deps(x)
        return s
    def subst_(self, m, memo): return MLV([(dom._subst(c, m, memo), dom._subst(x, m, memo)) for c, x in self.alts])

_cells = itertools.count(1)
def thr_any(thr): return any(thr)
def self_const(s, mach):
    return mach.num(mach.ev(s["v"])) if isinstance(s.get("v"), dict) else P(int(s["v"]))
def exc_match(thrown, caught):
    c = caught.replace("const ", "").replace("&", "").strip(); t = thrown.replace("const ", "").strip()
    if c == t or c == "std::exception": return True
    if c == "std::runtime_error": return t in ("std::range_error", "std::overflow_error", "std::underflow_error", "std::system_error")
    if c == "std::logic_error": return t in ("std::invalid_argument", "std::domain_error", "std::length_error", "std::out_of_range")
    return False
def div_bytes(off, es):
    if off is None: return ZERO
    if off is ZERO: return ZERO
    if es in (0, None): return None
    r = {}
    for k, c in off.m.items():
        q = Fraction(c) / es
        if q.denominator != 1: return None
        r[k] = int(q)
    return Poly(r)
def exact_or_fdiv(a, k):
    if k in (1, -1): return a * k
    q = a.div_const(k)
    if all(isinstance(c, int) for c in q.m.values()): return q
    return fdiv(a, P(k)) if k > 0 else fdiv(-a, P(-k))
def power(A, n):
    if A.is_const and n.is_const: return P(Fraction(A.const) ** int(n.const))
    return P(T("pow", A, n))
def boolsub(e, t, v):
    """substitute the boolean atom t"""
    return subst(e, {t: v})
def sub_term(seg, t, v):
    if seg[0] == "e": return ("e", term_subst(seg[1], t, v))
    if seg[0] == "L": return ("L", seg[1], term_subst(seg[2], t, v), term_subst(seg[3], t, v), tuple(sub_term(x, t, v) for x in seg[4]))
    return seg
def term_subst(x, t, v):
    """substitute a compound term t (not a leaf) by a polynomial"""
    class M(dict):
        pass
    ds = deps(t)
    m = {t: v}
    # leaves of t stay themselves; _subst consults m for every term it visits, provided the leaf filter passes
    for d in ds: m.setdefault(d, d)
    return subst(x, m)
def under(g, v):
    """v simplified (deeply) with the literals implied by the guard g"""
    if g is TRUE: return v
    pos, neg = bd_literals(g)
    m = {}
    for a in pos: m[a] = TRUE
    for a in neg: m[a] = FALSE
    if not m: return v
    for a in list(m):
        for dd in deps(a): m.setdefault(dd, dd)
    return subst(v, m)
def fix_size(x, t, size):
    return term_subst(x, T("size", t), size)
def resolve_self(x, t, i, init):
    return subst(x, {t: init})
def _atoms(p):
    return p.atoms()
def relevant(facts, q):
    """facts sharing variables (transitively) with q"""
    vs = set(k for k in q.m if k)
    out = []; rest = list(facts); ch = True
    while ch:
        ch = False
        for f in list(rest):
            if any(k in vs for k in f.m if k):
                out.append(f); rest.remove(f); ch = True
                vs |= set(k for k in f.m if k)
        if len(out) > 40: break
    # variables that are known nonnegative
    for k in vs:
        mono = Poly({k: 1})
        if nonneg(mono): out.append(mono)
    return out
_entc = {}
def entails(facts, goal):
    k = (frozenset(facts), goal)
    r = _entc.get(k)
    if r is None: r = _entc[k] = fm_entails(facts, goal, 400)
    return r

# ------------------------------------------------------------------ rebuild rules for terms over substituted containers
def _r_idx(b, j):
    if isinstance(b, Vec): return vec_get(b, j)
    if isinstance(b, GV): return gv([(c, _r_idx(x, j)) for c, x in b.alts])
    return T("idx", b, j)
def _r_size(b):
    if isinstance(b, Vec): return b.size
    return T("size", b)
def _r_fld(b, nm):
    if isinstance(b, Obj):
        x = b.f.get(nm)
        return values.OBJFIELD[0](b, nm) if x is None else x
    return T("fld", b, nm)
def _r_isnull(b):
    if isinstance(b, Ptr): return TRUE if b.base.op == "null" else (FALSE if b.base.op in ("cell", "heap") else batom(T("isnull", b.base)))
    return T("isnull", b)
dom.REBUILD["idx"] = _r_idx
dom.REBUILD["size"] = _r_size
dom.REBUILD["fld"] = _r_fld
dom.REBUILD["isnull"] = _r_isnull
def _effect_deref(self, v):
    """dereference of a possibly null owner: recorded when the guard does not exclude null"""
    c = self.decide(self.isnull(v)) if isinstance(v, (Ptr, GV)) else FALSE
    if c is not FALSE and not self.st.dead:
        self.rec.append(Eff("nullderef", band(self.st.g, c), {"ptr": v}, self.loc))
        self.st.g = band(self.st.g, bnot(c))
Machine.effect_deref = _effect_deref
