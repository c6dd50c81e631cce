"""Abstract values built over the term domain: pointers, objects, sequences, guarded values."""
from dom import *
import dom

class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

class Ptr:
    """base: Term; path: tuple of field names / Poly indices locating an object or a sequence below base;
    off: byte offset inside a sequence / flat memory, or None for a pointer to the object itself"""
    __slots__ = ("base", "path", "off")
    def __init__(self, base, path=(), off=None): self.base = base; self.path = path; self.off = off
    def __eq__(self, o): return isinstance(o, Ptr) and self.base is o.base and self.path == o.path and self.off == o.off
    def __hash__(self): return hash((self.base, self.path, self.off))
    def __repr__(self): return "&%s%s%s" % (show(self.base), "".join("." + (p if isinstance(p, str) else show(p)) for p in self.path), "" if self.off is None else "+" + show(self.off))
    def deps_(self): return deps(self.base) | deps(self.path) | (deps(self.off) if self.off is not None else frozenset())
    def subst_(self, m, memo):
        b = dom._subst(self.base, m, memo)
        pa = tuple(dom._subst(p, m, memo) if not isinstance(p, str) else p for p in self.path)
        of = None if self.off is None else dom._subst(self.off, m, memo)
        if isinstance(b, Ptr):
            if pa or (of is not None and b.off is None):
                return Ptr(b.base, b.path + pa, of if b.off is None else (b.off + of if of is not None else b.off))
            return Ptr(b.base, b.path, b.off if of is None else b.off + of)
        if not isinstance(b, Term): return b
        return Ptr(b, pa, of)
    def term(self):
        t = self.base
        if self.path: t = T("sub", t, tuple(self.path))
        if self.off is not None and self.off is not ZERO: return T("padd", t, self.off)
        return t
NULL = Ptr(T("null"))

class Obj:
    """record value; base (Term) supplies fields that were not set; flat over base classes"""
    __slots__ = ("rec", "f", "base")
    def __init__(self, rec, f, base=None): self.rec = rec; self.f = f; self.base = base
    def __eq__(self, o): return isinstance(o, Obj) and self.rec == o.rec and self.base is o.base and self.f == o.f
    def __hash__(self): return hash((self.rec, self.base))
    def __repr__(self): return "{%s%s}" % ("" if self.base is None else show(self.base) + "|", ", ".join("%s=%r" % kv for kv in self.f.items()))
    def deps_(self):
        s = deps(self.base) if self.base is not None else frozenset()
        for v in self.f.values(): s |= deps(v)
        return s
    def subst_(self, m, memo):
        b = None if self.base is None else dom._subst(self.base, m, memo)
        f = {k: dom._subst(v, m, memo) for k, v in self.f.items()}
        if isinstance(b, Obj):
            g = dict(b.f); g.update(f); return Obj(self.rec, g, b.base)
        return Obj(self.rec, f, b)
    def with_(self, k, v):
        f = dict(self.f); f[k] = v
        return Obj(self.rec, f, self.base)

class Sym:
    """opaque non-numeric value"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __eq__(self, o): return isinstance(o, Sym) and self.t is o.t
    def __hash__(self): return hash(self.t)
    def __repr__(self): return "<%s>" % show(self.t)
    def deps_(self): return deps(self.t)
    def subst_(self, m, memo):
        r = dom._subst(self.t, m, memo)
        return Sym(r) if isinstance(r, Term) else r
    def term(self): return self.t

class Closure:
    __slots__ = ("fn", "env", "this")
    def __init__(self, fn, env, this): self.fn = fn; self.env = env; self.this = this
    def __eq__(self, o): return isinstance(o, Closure) and self.fn == o.fn and self.env == o.env and self.this == o.this
    def __hash__(self): return hash(self.fn)
    def __repr__(self): return "lambda#%s" % self.fn
    def deps_(self):
        s = frozenset()
        for k, v in self.env.items(): s |= deps(v)
        return s
    def subst_(self, m, memo): return Closure(self.fn, {k: dom._subst(v, m, memo) for k, v in self.env.items()}, self.this)

class LV:
    """location"""
    __slots__ = ("base", "path", "off", "ty")
    def __init__(self, base, path=(), off=None, ty=None): self.base = base; self.path = path; self.off = off; self.ty = ty
    def __repr__(self): return "LV(%r)" % Ptr(self.base, self.path, self.off)
    def __eq__(self, o): return isinstance(o, LV) and self.base is o.base and self.path == o.path and self.off == o.off
    def __hash__(self): return hash((self.base, self.path))
    def deps_(self): return deps(self.base) | deps(tuple(self.path))
    def subst_(self, m, memo):
        p = Ptr(self.base, self.path, self.off).subst_(m, memo)
        return LV(p.base, p.path, p.off, self.ty)

class GV:
    """guarded alternatives [(BD, value)], guards disjoint and exhaustive"""
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = alts
    def __eq__(self, o): return isinstance(o, GV) and self.alts == o.alts
    def __hash__(self): return hash(tuple(hash(v) for _, v in self.alts))
    def __repr__(self): return "GV(" + "; ".join("%s -> %r" % (show(c), v) for c, v in self.alts) + ")"
    def deps_(self):
        s = frozenset()
        for c, v in self.alts: s |= deps(c) | deps(v)
        return s
    def subst_(self, m, memo): return gv([(dom._subst(c, m, memo), dom._subst(v, m, memo)) for c, v in self.alts])

def gv(alts):
    out = []
    for c, v in alts:
        if c is FALSE: continue
        if isinstance(v, GV): sub = [(band(c, c2), v2) for c2, v2 in v.alts]
        else: sub = [(c, v)]
        for c2, v2 in sub:
            if c2 is FALSE: continue
            for i, (c3, v3) in enumerate(out):
                if veq(v2, v3): out[i] = (bor(c3, c2), v3); break
            else: out.append((c2, v2))
    if len(out) == 1: return out[0][1]
    if all(isinstance(v, Poly) for _, v in out) and out:
        r = out[-1][1]
        for c, v in out[:-1]: r = ite(c, v, r)
        return r
    if not out: return UNDEF
    return GV(tuple(out))

def veq(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (Poly, BD)): return a is b
    return a == b

# ------------------------------------------------------------------ sequences
class Vec:
    """abstract sequence; et = element type id, es = element byte size"""
    et = None; es = None
class VElems(Vec):
    def __init__(self, et, es, el): self.et = et; self.es = es; self.el = tuple(el)
    @property
    def size(self): return P(len(self.el))
    def __eq__(self, o): return isinstance(o, VElems) and len(self.el) == len(o.el) and all(veq(a, b) for a, b in zip(self.el, o.el))
    def __hash__(self): return hash(len(self.el))
    def __repr__(self): return "[" + ", ".join(repr(x) for x in self.el) + "]"
    def deps_(self):
        s = frozenset()
        for v in self.el: s |= deps(v)
        return s
    def subst_(self, m, memo): return VElems(self.et, self.es, [dom._subst(v, m, memo) for v in self.el])
class VFn(Vec):
    """size entries, entry j = body[n := j]"""
    def __init__(self, et, es, size, n, body, base=None): self.et = et; self.es = es; self.size = size; self.n = n; self.body = body; self.base = base
    def __eq__(self, o):
        if not (isinstance(o, VFn) and self.size is o.size): return False
        return veq(self.body, subst(o.body, {o.n: P(self.n)}))
    def __hash__(self): return hash(self.size)
    def __repr__(self): return "[%s | %s<%s]" % (self.body, show(self.n), show(self.size))
    def deps_(self): return (deps(self.body) - {self.n}) | deps(self.size)
    def subst_(self, m, memo):
        if not any(t in m for t in self.deps_()): return self
        m2 = {k: v for k, v in m.items() if k is not self.n}
        n = self.n; body = self.body
        if any(n in deps(v) for v in m2.values()):
            n2 = fresh_index("v"); body = subst(body, {n: P(n2)}); n = n2
        return VFn(self.et, self.es, subst(self.size, m2), n, subst(body, m2), None)
class VSegs(Vec):
    """segments: ('e', v) | ('L', n, N, guard, segs) | ('P', phi term, size)  | ('V', vec)"""
    def __init__(self, et, es, segs): self.et = et; self.es = es; self.segs = tuple(segs)
    @property
    def size(self): return seg_size(self.segs)
    def __eq__(self, o): return isinstance(o, VSegs) and segs_eq(self.segs, o.segs)
    def __hash__(self): return hash(len(self.segs))
    def __repr__(self): return "segs(" + ", ".join(seg_show(s) for s in self.segs) + ")"
    def deps_(self):
        s = frozenset()
        for x in self.segs: s |= seg_deps(x)
        return s
    def subst_(self, m, memo): return mk_segs(self.et, self.es, [seg_subst(s, m) for s in self.segs])
class VUpd(Vec):
    """a loop-carried sequence with writes logged: base Vec then (guard, idx, val)"""
    def __init__(self, et, es, v, ups): self.et = et; self.es = es; self.v = v; self.ups = tuple(ups)
    @property
    def size(self): return self.v.size
    def __eq__(self, o): return isinstance(o, VUpd) and self.v == o.v and len(self.ups) == len(o.ups) and all(a[0] is b[0] and a[1] is b[1] and veq(a[2], b[2]) for a, b in zip(self.ups, o.ups))
    def __hash__(self): return hash(len(self.ups))
    def __repr__(self): return "upd(%r; %s)" % (self.v, "; ".join("%s: [%s]=%r" % (show(g), show(i), v) for g, i, v in self.ups))
    def deps_(self):
        s = deps(self.v)
        for g, i, v in self.ups: s |= deps(g) | deps(i) | deps(v)
        return s
    def subst_(self, m, memo):
        v = dom._subst(self.v, m, memo)
        ups = [(dom._subst(g, m, memo), dom._subst(i, m, memo), dom._subst(x, m, memo)) for g, i, x in self.ups]
        r = v if isinstance(v, Vec) else self.v
        for g, i, x in ups: r = vec_set(r, i, x, g)
        return r
class VFlat(Vec):
    """data buffer whose contents are flat memory"""
    def __init__(self, et, es, size, mem): self.et = et; self.es = es; self.size = size; self.mem = mem
    def __eq__(self, o): return isinstance(o, VFlat) and self.size is o.size and self.mem is o.mem
    def __hash__(self): return hash(self.size)
    def __repr__(self): return "flat(%s, %s)" % (show(self.mem), show(self.size))
    def deps_(self): return deps(self.size) | deps(self.mem)
    def subst_(self, m, memo): return VFlat(self.et, self.es, dom._subst(self.size, m, memo), self.mem)

def seg_show(s):
    if s[0] == "e": return repr(s[1])
    if s[0] == "L": return "for %s<%s if %s: {%s}" % (show(s[1]), show(s[2]), show(s[3]), ", ".join(seg_show(x) for x in s[4]))
    if s[0] == "P": return "PHI(%s)" % show(s[1])
    return "all(%r)" % (s[1],)
def seg_deps(s):
    if s[0] == "e": return deps(s[1])
    if s[0] == "L":
        r = deps(s[2]) | deps(s[3])
        for x in s[4]: r |= seg_deps(x)
        return r - {s[1]}
    if s[0] == "P": return deps(s[1]) | deps(s[2])
    return deps(s[1])
def seg_subst(s, m):
    if s[0] == "e": return ("e", subst(s[1], m))
    if s[0] == "L":
        n = s[1]; m2 = {k: v for k, v in m.items() if k is not n}
        if any(n in deps(v) for v in m2.values()):
            n2 = fresh_index("s"); q = {n: P(n2)}
            s = ("L", n2, s[2], subst(s[3], q), tuple(seg_subst(x, q) for x in s[4])); n = n2
        return ("L", n, subst(s[2], m2), subst(s[3], m2), tuple(seg_subst(x, m2) for x in s[4]))
    if s[0] == "P":
        v = m.get(s[1])
        if isinstance(v, Vec): return ("V", v)
        return ("P", s[1], subst(s[2], m))
    return ("V", subst(s[1], m))
def seg_eq(a, b):
    if a[0] != b[0]: return False
    if a[0] == "e": return veq(a[1], b[1])
    if a[0] == "L":
        if a[2] is not b[2]: return False
        q = {b[1]: P(a[1])}
        return a[3] is subst(b[3], q) and segs_eq(a[4], tuple(seg_subst(x, q) for x in b[4]))
    if a[0] == "P": return a[1] is b[1]
    return a[1] == b[1]
def segs_eq(a, b): return len(a) == len(b) and all(seg_eq(x, y) for x, y in zip(a, b))
def seg_size(segs):
    r = ZERO
    for s in segs:
        if s[0] == "e": r = r + 1
        elif s[0] == "P": r = r + s[2]
        elif s[0] == "V": r = r + s[1].size
        else: r = r + psum(bd_poly(s[3]) * seg_size(s[4]), s[1], s[2])
    return r
def mk_segs(et, es, segs):
    out = []
    for s in segs:
        if s[0] == "V":
            v = s[1]
            if isinstance(v, VSegs): out += list(v.segs); continue
            if isinstance(v, VElems): out += [("e", x) for x in v.el]; continue
            if isinstance(v, VFn):
                if v.size is ZERO: continue
                out.append(("L", v.n, v.size, TRUE, (("e", v.body),))); continue
        if s[0] == "L":
            if s[3] is FALSE or s[2] is ZERO: continue
            if s[2].is_const and 0 < s[2].const <= 16:
                for i in range(int(s[2].const)):
                    q = {s[1]: P(i)}; g = subst(s[3], q)
                    if g is FALSE: continue
                    sub = [seg_subst(x, q) for x in s[4]]
                    if g is TRUE: out += list(mk_segs(et, es, sub).segs if True else sub)
                    else: out.append(("L", s[1], ONE, g, tuple(sub)))
                continue
        if s[0] == "L" and s[4] and s[3] is not TRUE:
            s = ("L", s[1], s[2], s[3], tuple(mk_segs(et, es, s[4]).segs))
        elif s[0] == "L":
            s = ("L", s[1], s[2], s[3], tuple(mk_segs(et, es, s[4]).segs))
        out.append(s)
    # complementary pushes of one entry each are one entry with a conditional value
    res = []
    for s in out:
        if res and s[0] == "L" and res[-1][0] == "L" and s[2] is ONE and res[-1][2] is ONE and len(s[4]) == 1 and len(res[-1][4]) == 1 and s[4][0][0] == "e" and res[-1][4][0][0] == "e" and s[3] is bnot(res[-1][3]):
            a = res.pop()
            res.append(("e", vite(subst(a[3], {a[1]: ZERO}), subst(a[4][0][1], {a[1]: ZERO}), subst(s[4][0][1], {s[1]: ZERO}))))
        else: res.append(s)
    return VSegs(et, es, res)
def vsegs(v):
    """any Vec as segments"""
    if isinstance(v, VSegs): return v.segs
    if isinstance(v, VElems): return tuple(("e", x) for x in v.el)
    if isinstance(v, VFn):
        if v.size is ZERO: return ()
        return (("L", v.n, v.size, TRUE, (("e", v.body),)),)
    return (("V", v),)
def simplify_vec(v):
    """concrete or single-map segment lists back to plain forms"""
    if isinstance(v, VSegs):
        if all(s[0] == "e" for s in v.segs): return VElems(v.et, v.es, [s[1] for s in v.segs])
        if len(v.segs) == 1:
            s = v.segs[0]
            if s[0] == "V": return s[1]
            if s[0] == "L" and s[3] is TRUE and len(s[4]) == 1 and s[4][0][0] == "e": return VFn(v.et, v.es, s[2], s[1], s[4][0][1])
    return v

SYMVAL = [None]     # set by the interpreter: (type id, term) -> value
def vec_get(v, j, st=None):
    j = P(j)
    if isinstance(v, GV): return gv([(c, vec_get(x, j, st)) for c, x in v.alts])
    if isinstance(v, VElems):
        if j.is_const:
            k = int(j.const)
            return v.el[k] if 0 <= k < len(v.el) else UNDEF
        if not v.el: return UNDEF
        r = v.el[-1]
        for k in range(len(v.el) - 2, -1, -1): r = vite(beq(j, k), v.el[k], r)
        return r
    if isinstance(v, VFn): return subst(v.body, {v.n: j})
    if isinstance(v, VFlat): return P(T("load", v.mem, j * v.es, v.es))
    if isinstance(v, VUpd):
        r = vec_get(v.v, j, st)
        for g, i, x in v.ups: r = vite(band(g, beq(i, j)), x, r)
        return r
    if isinstance(v, VSegs):
        w = simplify_vec(v)
        if not isinstance(w, VSegs): return vec_get(w, j, st)
        base = ZERO; alts = []; rest = TRUE
        for s in v.segs:
            sz = seg_size((s,))
            rel = j - base
            inside = lt(rel, sz) if s is not v.segs[-1] else TRUE
            c = band(rest, inside)
            if c is not FALSE:
                if s[0] == "e": x = s[1]
                elif s[0] == "L":
                    if len(s[4]) == 1 and s[4][0][0] == "e":
                        k = sel(s[3], s[1], s[2], rel) if s[3] is not TRUE else rel
                        if s[2] is ONE: k = ZERO
                        x = subst(s[4][0][1], {s[1]: k})
                    else: x = SYMVAL[0](v.et, T("idx", T("segs", fresh("seg")), rel))
                elif s[0] == "V": x = vec_get(s[1], rel)
                else: x = SYMVAL[0](v.et, T("idx", s[1], rel))
                alts.append((c, x))
            rest = band(rest, bnot(inside)); base = base + sz
        return gv(alts) if len(alts) > 1 else (alts[0][1] if alts else UNDEF)
    return UNDEF

def vec_set(v, i, x, g=TRUE):
    i = P(i)
    if isinstance(v, GV): return gv([(c, vec_set(w, i, x, g)) for c, w in v.alts])
    if isinstance(v, VElems):
        if i.is_const:
            k = int(i.const)
            if not 0 <= k < len(v.el): return v
            el = list(v.el); el[k] = vite(g, x, el[k]); return VElems(v.et, v.es, el)
        return VElems(v.et, v.es, [vite(band(g, beq(i, k)), x, el) for k, el in enumerate(v.el)])
    if isinstance(v, VFn):
        n = v.n; body = v.body
        if n in deps(x) or n in deps(i) or n in deps(g):
            n = fresh_index("v"); body = subst(body, {v.n: P(n)})
        return VFn(v.et, v.es, v.size, n, vite(band(g, beq(n, i)), x, body))
    if isinstance(v, VUpd):
        return VUpd(v.et, v.es, v.v, v.ups + ((g, i, x),))
    if isinstance(v, VSegs):
        w = simplify_vec(v)
        if not isinstance(w, VSegs): return vec_set(w, i, x, g)
        if any(s[0] == "P" for s in v.segs): return VUpd(v.et, v.es, v, ((g, i, x),))
        n = fresh_index("v")
        return VFn(v.et, v.es, v.size, n, vite(band(g, beq(n, i)), x, vec_get(v, P(n))))
    return v

def vec_push(v, x):
    if isinstance(v, GV): return gv([(c, vec_push(w, x)) for c, w in v.alts])
    if isinstance(v, VElems): return VElems(v.et, v.es, v.el + (x,))
    return mk_segs(v.et, v.es, vsegs(v) + (("e", x),))

# ------------------------------------------------------------------ joins
def vite(c, a, b):
    if c is TRUE or veq(a, b): return a
    if c is FALSE: return b
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, BD) or isinstance(b, BD):
        if isinstance(a, BD) and isinstance(b, BD): return bite(c, a, b)
        if isinstance(a, (Poly, BD)) and isinstance(b, (Poly, BD)): return ite(c, P(a), P(b))
    if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base and a.path == b.path and a.off is not None and b.off is not None:
        return Ptr(a.base, a.path, ite(c, a.off, b.off))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.rec == b.rec and (a.base is b.base):
        f = {}
        for k in list(a.f) + [k for k in b.f if k not in a.f]:
            x = a.f.get(k, None); y = b.f.get(k, None)
            if x is None: x = OBJFIELD[0](a, k)
            if y is None: y = OBJFIELD[0](b, k)
            f[k] = vite(c, x, y)
        return Obj(a.rec, f, a.base)
    if isinstance(a, VElems) and isinstance(b, VElems) and len(a.el) == len(b.el):
        return VElems(a.et, a.es, [vite(c, x, y) for x, y in zip(a.el, b.el)])
    if isinstance(a, Vec) and isinstance(b, Vec):
        if isinstance(a, VFn) and isinstance(b, VFn) and a.size is b.size:
            n = fresh_index("v")
            return VFn(a.et, a.es, a.size, n, vite(c, subst(a.body, {a.n: P(n)}), subst(b.body, {b.n: P(n)})))
        if isinstance(a, VUpd) or isinstance(b, VUpd):
            ua, va = (a.ups, a.v) if isinstance(a, VUpd) else ((), a)
            ub, vb = (b.ups, b.v) if isinstance(b, VUpd) else ((), b)
            if va == vb:
                k = 0
                while k < min(len(ua), len(ub)) and ua[k][0] is ub[k][0] and ua[k][1] is ub[k][1] and veq(ua[k][2], ub[k][2]): k += 1
                return VUpd(a.et, a.es, va, ua[:k] + tuple((band(c, g), i, x) for g, i, x in ua[k:]) + tuple((band(bnot(c), g), i, x) for g, i, x in ub[k:]))
        sa, sb = vsegs(a), vsegs(b)
        k = 0
        while k < min(len(sa), len(sb)) and seg_eq(sa[k], sb[k]): k += 1
        def wrap(g, ss): return [("L", fresh_index("g"), ONE, g, (s,)) for s in ss] if len(ss) <= 1 else [("L", fresh_index("g"), ONE, g, tuple(ss))]
        if all(s[0] != "V" for s in sa + sb):
            return mk_segs(a.et, a.es, list(sa[:k]) + (wrap(c, sa[k:]) if sa[k:] else []) + (wrap(bnot(c), sb[k:]) if sb[k:] else []))
    return gv([(c, a), (bnot(c), b)])
OBJFIELD = [None]
dom.REBUILD.setdefault("isnull", None); del dom.REBUILD["isnull"]
