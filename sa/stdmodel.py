"""Models of the standard library entities used by the analysed code."""
from dom import *
import dom
from values import *
import itertools
_c = itertools.count(1)
TABLE = {}
def model(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d

# ---------------------------------------------------------------- constructors (mach, node, fn, args)
def vec_types(m, n):
    y = m.strip(n["t"])
    et = m.eltype(y)
    return et, m.size(et)
def mkvec(m, n, N, fillv, et, es):
    N = m.num(N)
    if m.is_data(et):
        c = T("cell", next(_c), "vec")
        if fillv is not None and not (isinstance(fillv, Poly) and fillv is ZERO): m.effect("fill", mem=c, size=N * es, val=fillv)
        return VFlat(et, es, N, c)
    v = fillv if fillv is not None else m.zero(et)
    if N.is_const and 0 <= N.const <= 64: return VElems(et, es, [v] * int(N.const))
    j = fresh_index("v")
    return VFn(et, es, N, j, v)
def seq_between(m, b, e, et):
    """sequence designated by an iterator pair"""
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.base is e.base and b.path == e.path:
        v = m.st.s.get(b.base)
        if v is None: return None
        for p in b.path: v = m.get_step(v, p)
        if isinstance(v, Vec):
            i0 = divb(b.off, v.es); i1 = divb(e.off, v.es)
            if i0 is None or i1 is None: return None
            if i0 is ZERO and i1 is v.size: return v
            return slice_(v, i0, i1)
    return None
def slice_(v, i0, i1):
    if isinstance(v, VElems) and i0.is_const and i1.is_const: return VElems(v.et, v.es, v.el[int(i0.const):int(i1.const)])
    j = fresh_index("v")
    return VFn(v.et, v.es, i1 - i0, j, vec_get(v, P(j) + i0))
def divb(o, es):
    from interp import div_bytes
    return div_bytes(o, es)

@model("std::vector::ctor")
def _(m, n, fn, a):
    et, es = vec_types(m, n)
    ps = [m.ty(p["t"]) for p in fn["params"]]
    val = []
    for x, p in zip(a, ps):
        val.append(m.read(x, p["el"]) if p["k"] == "ref" and not isinstance(x, (Poly, BD, Ptr, Obj, Vec, Sym, GV, Undef)) else x)
    if not val or (len(val) == 1 and isinstance(val[0], Sym)):
        return TABLE_empty(m, n, et, es)
    x = val[0]
    if isinstance(x, (Vec, GV)) and not isinstance(x, Poly):
        if isinstance(x, VFlat):
            c = T("cell", next(_c), "vec")
            m.effect("copybuf", dst=c, src=x.mem, size=x.size * es)
            if fn.get("move"): return x
            return VFlat(et, es, x.size, c)
        return x
    if isinstance(x, (Poly, BD)):
        fv = None
        if len(val) > 1 and ps[1]["k"] == "ref" and isinstance(val[1], (Poly, BD, Obj, Ptr, Vec)) and not (m.strip(fn["params"][1]["t"])["k"] == "rec" and "allocator" in m.strip(fn["params"][1]["t"])["s"]):
            fv = val[1]
        return mkvec(m, n, x, fv, et, es)
    if isinstance(x, Ptr) and len(val) >= 2 and isinstance(val[1], Ptr):
        s = seq_between(m, x, val[1], et)
        if s is not None and not isinstance(s, VFlat): return s
        if m.is_data(et):
            c = T("cell", next(_c), "vec")
            N = divb((val[1].off or ZERO) - (x.off or ZERO), es)
            m.effect("copybuf", dst=c, src=x, size=(N if N is not None else P(fresh("len"))) * es)
            return VFlat(et, es, N if N is not None else P(fresh("len")), c)
        N = divb((val[1].off or ZERO) - (x.off or ZERO), es)
        if N is not None and x.base is val[1].base:
            j = fresh_index("v")
            return VFn(et, es, N, j, m.read(m.deref(Ptr(x.base, x.path, (x.off or ZERO) + P(j) * es), et), et))
    m.note("vector constructor")
    return m.symvec(et, fresh("vec"), P(T("size", fresh("vec"))))
def TABLE_empty(m, n, et, es):
    if m.is_data(et): return VFlat(et, es, ZERO, T("cell", next(_c), "vec"))
    return VElems(et, es, [])

@model("std::array::ctor")
def _(m, n, fn, a):
    if not a: return m.undef(n["t"]) if not n.get("zero") else m.zero(n["t"])
    x = a[0]
    return m.read(x, n["t"]) if not isinstance(x, (Vec, GV, Sym)) else x
@model("std::unique_ptr::ctor", "std::shared_ptr::ctor")
def _(m, n, fn, a):
    if not a: return NULL
    x = a[0]
    if not isinstance(x, (Ptr, GV, Sym, Poly, Undef)):
        l = x; x = m.read(l, n["t"])
        m.write(l, NULL)
    return x
@model("std::pair::ctor")
def _(m, n, fn, a):
    y = m.strip(n["t"])
    v = [m.read(x, m.ty(p["t"]).get("el")) if not isinstance(x, (Poly, BD, Ptr, Obj, Vec, Sym, GV, Undef)) else x for x, p in zip(a, fn["params"])]
    if len(v) == 1: return v[0]
    return Obj(y["rec"], {"first": v[0], "second": v[1]})
@model("std::complex::ctor")
def _(m, n, fn, a):
    v = [m.num(m.read(x, m.ty(p["t"]).get("el")) if not isinstance(x, (Poly, BD, GV, Undef)) else x) for x, p in zip(a, fn["params"])]
    if not v: return ZERO
    if len(v) == 1: return v[0]
    return v[0] + P(T("I")) * v[1]
@model("std::allocator::ctor")
def _(m, n, fn, a): return Sym(T("alloc"))
@model("std::basic_string::ctor")
def _(m, n, fn, a):
    v = [m.read(x) if not isinstance(x, (Poly, BD, Ptr, Obj, Vec, Sym, GV, Undef)) else x for x in a]
    if not v: return Sym(T("str", ""))
    return v[0] if isinstance(v[0], (Sym, GV)) else Sym(T("strof", m.term(v[0])))

# ---------------------------------------------------------------- members (mach, node, fn, this, args)
def thisv(m, n, fn, this):
    t = None
    if n is not None and n.get("k") == "mcall": t = n["o"].get("t")
    elif n is not None and n.get("k") == "ocall": t = n["a"][0].get("t")
    if t is not None and m.ty(t)["k"] == "ptr": t = m.ty(t)["el"]
    return m.read(this, t), t
def argv(m, fn, a):
    out = []
    for x, p in zip(a, fn["params"]):
        y = m.ty(p["t"])
        out.append(m.read(x, y.get("el")) if y["k"] == "ref" and not isinstance(x, (Poly, BD, Ptr, Obj, Vec, Sym, GV, Undef)) else x)
    return out
def elt(m, fn, v, t):
    if isinstance(v, Vec): return v.et, v.es
    if t is not None:
        e = m.eltype(m.strip(t)); return e, m.size(e)
    return None, None
def seqptr(m, this, i, es):
    from interp import MLV
    if isinstance(this, MLV): return gv([(c, seqptr(m, x, i, es)) for c, x in this.alts])
    return Ptr(this.base, this.path, i * es)
def vsize(v):
    if isinstance(v, Vec): return v.size
    if isinstance(v, GV):
        r = None
        for c, x in v.alts:
            s = vsize(x); r = s if r is None else ite(c, s, r)
        return r
    if isinstance(v, Sym): return P(T("size", v.t))
    return P(fresh("size"))

@model("std::deque::operator[]", "std::deque::at", "std::vector::operator[]", "std::array::operator[]", "std::vector::at", "std::array::at")
def _(m, n, fn, this, a):
    i = m.num(argv(m, fn, a)[0])
    v, t = thisv(m, n, fn, this)
    et, es = elt(m, fn, v, t)
    y = m.ty(fn["ret"])
    if y["k"] != "ref":                                         # vector<bool>
        if y["k"] == "rec" and normq_(m.p.recs[y["rec"]]["q"]) == "std::_Bit_reference": return m.index(this, i, et)
        return vec_get(v, i)
    if isinstance(v, VFlat):
        from interp import MLV
        return m.index(this, i, et)
    return m.index(this, i, et)
@model("std::deque::size", "std::vector::size", "std::array::size", "std::vector::length")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); return vsize(v)
@model("std::deque::empty", "std::vector::empty", "std::array::empty")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); return eq0(vsize(v))
@model("std::vector::data", "std::array::data", "std::vector::begin", "std::array::begin", "std::vector::cbegin", "std::array::cbegin")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); et, es = elt(m, fn, v, t)
    return seqptr(m, this, ZERO, es or 1)
@model("std::vector::end", "std::array::end", "std::vector::cend", "std::array::cend")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); et, es = elt(m, fn, v, t)
    return seqptr(m, this, vsize(v), es or 1)
@model("std::deque::front", "std::vector::front", "std::array::front")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); et, es = elt(m, fn, v, t); return m.index(this, ZERO, et)
@model("std::deque::back", "std::vector::back", "std::array::back")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); et, es = elt(m, fn, v, t); return m.index(this, vsize(v) - 1, et)
@model("std::vector::push_back", "std::vector::emplace_back")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this)
    et, es = elt(m, fn, v, t)
    x = None
    if fn["n"] == "emplace_back":
        y = m.ty(et)
        vals = [m.read(z) if not isinstance(z, (Poly, BD, Ptr, Obj, Vec, Sym, GV, Undef)) else z for z in a]
        if len(vals) == 1 and (y["k"] != "rec" or isinstance(vals[0], (Obj, Vec)) or not m.p.recs[y["rec"]].get("ours")): x = vals[0]
        elif y["k"] == "rec" and m.p.recs[y["rec"]].get("ours"):
            for mid in m.p.recs[y["rec"]].get("methods") or []:
                f = m.p.fns[mid]
                if f["k"] == "ctor" and len(f["params"]) == len(a) and f.get("body") is not None: x = m.construct(f, a); break
        if x is None and not vals: x = m.zero(et)
        if x is None: x = m.sym(et, fresh("emplaced"))
    else: x = argv(m, fn, a)[0]
    if isinstance(v, VFlat): m.effect("write", mem=v.mem, off=v.size * v.es, size=v.es, val=x); m.write(this, VFlat(v.et, v.es, v.size + 1, v.mem)); return UNDEF
    m.write(this, vec_push(v, x))
    return UNDEF
@model("std::vector::pop_back")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this)
    if isinstance(v, VElems): m.write(this, VElems(v.et, v.es, v.el[:-1]))
    elif isinstance(v, VSegs) and v.segs[-1][0] == "e": m.write(this, VSegs(v.et, v.es, v.segs[:-1]))
    else: m.write(this, slice_(v, ZERO, vsize(v) - 1))
    return UNDEF
@model("std::vector::resize", "std::vector::assign")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); b = argv(m, fn, a); et, es = elt(m, fn, v, t)
    N = m.num(b[0])
    if isinstance(v, VFlat) or m.is_data(et):
        m.effect("resize", vec=m.addr(this), size=N)
        m.write(this, VFlat(et, es, N, v.mem if isinstance(v, VFlat) else T("cell", next(_c), "vec"))); return UNDEF
    f = b[1] if len(b) > 1 else m.zero(et)
    if fn["n"] == "assign" or vsize(v) is ZERO: m.write(this, mkvec(m, n, N, f, et, es)); return UNDEF
    if isinstance(v, VElems) and N.is_const:
        k = int(N.const); m.write(this, VElems(et, es, (list(v.el) + [f] * k)[:k])); return UNDEF
    j = fresh_index("v")
    m.write(this, VFn(et, es, N, j, vite(lt(P(j), vsize(v)), vec_get(v, P(j)), f)))
    return UNDEF
@model("std::vector::reserve", "std::vector::shrink_to_fit")
def _(m, n, fn, this, a): return UNDEF
@model("std::vector::clear")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); et, es = elt(m, fn, v, t)
    m.write(this, VFlat(et, es, ZERO, v.mem) if isinstance(v, VFlat) else VElems(et, es, [])); return UNDEF
@model("std::vector::insert")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); b = argv(m, fn, a); et, es = elt(m, fn, v, t)
    if len(b) == 3 and isinstance(b[0], Ptr) and b[0].off is vsize(v) * es:
        s = seq_between(m, b[1], b[2], et)
        if s is not None: m.write(this, simplify_vec(mk_segs(et, es, vsegs(v) + vsegs(s)))); return UNDEF
    if len(b) == 2 and isinstance(b[0], Ptr) and b[0].off is vsize(v) * es: m.write(this, vec_push(v, b[1])); return UNDEF
    m.note("vector insert"); m.write(this, m.symvec(et, fresh("vec"), P(fresh("size")))); return UNDEF
@model("std::vector::operator=", "std::array::operator=", "std::basic_string::operator=", "std::complex::operator=", "std::pair::operator=", "std::_Bit_reference::operator=")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); x = b[0]
    v, t = thisv(m, n, fn, this)
    if isinstance(x, VFlat) and isinstance(v, VFlat) and not fn.get("move"):
        m.effect("copybuf", dst=v.mem, src=x.mem, size=x.size * x.es); m.write(this, VFlat(v.et, v.es, x.size, v.mem)); return this
    if fn.get("cls") and normq_(m.p.recs[fn["cls"]]["q"]) == "std::_Bit_reference":
        m.write(this, m.boolean(x)); return this
    m.write(this, x, t); return this
def normq_(q):
    from interp import normq
    return normq(q)
@model("std::swap", "std::vector::swap")
def _(m, n, fn, this, a):
    if this is not None: a = [this] + list(a)
    t = m.ty(fn["params"][0]["t"]).get("el") if fn.get("params") else None
    x = m.read(a[0], t); y = m.read(a[1], t)
    m.write(a[0], y, t); m.write(a[1], x, t); return UNDEF
@model("std::vector::~vector")
def _(m, n, fn, this, a): return UNDEF

# unique_ptr
@model("std::unique_ptr::operator bool", "std::shared_ptr::operator bool")
def _(m, n, fn, this, a): return bnot(m.isnull(thisv(m, n, fn, this)[0]))
@model("std::unique_ptr::get", "std::shared_ptr::get", "std::unique_ptr::operator->", "std::shared_ptr::operator->")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this)
    if fn["n"] == "operator->": m.effect_deref(v)
    return v
@model("std::unique_ptr::operator*", "std::shared_ptr::operator*")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); m.effect_deref(v)
    return m.deref(v, m.ty(fn["ret"]).get("el"))
@model("std::unique_ptr::operator[]")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); i = m.num(argv(m, fn, a)[0]); et = m.ty(fn["ret"]).get("el")
    return m.deref(m.padd(v, i, et), et)
@model("std::unique_ptr::operator=", "std::shared_ptr::operator=")
def _(m, n, fn, this, a):
    x = a[0]
    if not isinstance(x, (Ptr, GV, Sym, Poly, Undef)):
        l = x; x = m.read(l, m.ty(fn["params"][0]["t"]).get("el"))
        if not isinstance(x, Ptr) or x is not NULL: m.write(l, NULL)
    m.write(this, x if isinstance(x, (Ptr, GV, Sym)) else NULL); return this
@model("std::unique_ptr::reset")
def _(m, n, fn, this, a): m.write(this, a[0] if a else NULL); return UNDEF
@model("std::unique_ptr::release")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); m.write(this, NULL); return v
@model("std::make_unique", "std::make_shared")
def _(m, n, fn, this, a):
    y = m.ty(fn["ret"]); r = m.p.recs[y["rec"]]; et = r["tat"][0]; e = m.ty(et)
    h = T("heap", next(_c), e["s"])
    if e["k"] == "arr":
        return Ptr(h, (), ZERO)
    v = None
    if e["k"] == "rec":
        for mid in m.p.recs[e["rec"]].get("methods") or []:
            f = m.p.fns[mid]
            if f["k"] == "ctor" and len(f["params"]) == len(a) and f.get("body") is not None and not f.get("copy") and not f.get("move"):
                v = m.construct(f, a); break
    if v is None: v = m.zero(et) if not a else m.sym(et, fresh("made"))
    if m.st.dead: return UNDEF
    m.st.s[h] = v
    m.effect("new", ptr=Ptr(h), type=e["s"], array=False, rec=e.get("rec"))
    return Ptr(h)

# free functions
@model("std::move", "std::forward", "std::as_const", "std::addressof_")
def _(m, n, fn, this, a): return a[0]
@model("std::min")
def _(m, n, fn, this, a):
    x, y = [m.num(v) for v in argv(m, fn, a)][:2]; return pmin(x, y)
@model("std::max")
def _(m, n, fn, this, a):
    b = argv(m, fn, a)
    if len(b) == 1 and isinstance(b[0], VElems):
        r = m.num(b[0].el[0])
        for v in b[0].el[1:]: r = pmax(r, m.num(v))
        return r
    return pmax(m.num(b[0]), m.num(b[1]))
@model("std::abs", "abs", "std::labs", "labs")
def _(m, n, fn, this, a):
    x = m.num(argv(m, fn, a)[0]); 
    if x.is_const: return P(abs(x.const))
    return P(T("abs", x if lead(x) > 0 else -x))
@model("sqrt", "std::sqrt")
def _(m, n, fn, this, a):
    return msqrt(m.num(argv(m, fn, a)[0]))
def msqrt(x):
    if x.is_const and x.const >= 0:
        r = int(x.const ** 0.5)
        if r * r == x.const: return P(r)
    return P(T("sqrt", x))
@model("std::to_string")
def _(m, n, fn, this, a): return Sym(T("str", "to_string", m.term(argv(m, fn, a)[0])))
@model("std::make_pair")
def _(m, n, fn, this, a):
    y = m.ty(fn["ret"]); v = [m.read(x, m.ty(p["t"]).get("el")) if not isinstance(x, (Poly, BD, Ptr, Obj, Vec, Sym, GV, Undef)) else x for x, p in zip(a, fn["params"])]
    return Obj(y["rec"], {"first": v[0], "second": v[1]})
@model("std::real", "std::complex::real")
def _(m, n, fn, this, a):
    if this is not None:
        v, t = thisv(m, n, fn, this)
        if a: m.note("complex::real(x)"); return UNDEF
    else: v = argv(m, fn, a)[0]
    return P(T("re", m.num(v)))
@model("std::imag", "std::complex::imag")
def _(m, n, fn, this, a):
    if this is not None:
        v, t = thisv(m, n, fn, this)
        if a: m.note("complex::imag(x)"); return UNDEF
    else: v = argv(m, fn, a)[0]
    return P(T("im", m.num(v)))
@model("std::conj")
def _(m, n, fn, this, a): return P(T("conj", m.num(argv(m, fn, a)[0])))
@model("std::norm")
def _(m, n, fn, this, a): return P(T("norm", m.num(argv(m, fn, a)[0])))
@model("cos", "sin", "std::cos", "std::sin", "std::exp", "exp", "std::pow", "pow", "floor", "std::floor", "ceil", "std::ceil", "std::log", "std::round", "std::cbrt", "cbrt")
def _(m, n, fn, this, a): return P(T(fn["n"], *[m.num(v) for v in argv(m, fn, a)]))
@model("std::complex::operator*=", "std::complex::operator+=", "std::complex::operator-=", "std::complex::operator/=")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); x = m.num(v); y = m.num(argv(m, fn, a)[0]); op = fn["n"][8]
    r = x * y if op == "*" else x + y if op == "+" else x - y if op == "-" else x * inv(y)
    m.write(this, r, t); return this
@model("std::operator*", "std::operator+", "std::operator-", "std::operator/")
def _(m, n, fn, this, a):
    b = argv(m, fn, a)
    y = m.ty(fn["ret"])
    if y["k"] == "rec" and "string" in m.p.recs[y["rec"]]["q"]:
        return Sym(T("cat", *[m.term(v) if isinstance(v, (Sym, Poly)) else T("x") for v in b]))
    if len(b) == 1: return -m.num(b[0]) if fn["n"] == "operator-" else m.num(b[0])
    x, z = m.num(b[0]), m.num(b[1]); op = fn["n"][8]
    return x * z if op == "*" else x + z if op == "+" else x - z if op == "-" else x * inv(z)
@model("std::operator==", "std::operator!=")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); r = m.eq(b[0], b[1] if len(b) > 1 else NULL)
    return r if fn["n"] == "operator==" else bnot(r)
@model("std::operator<<", "std::basic_ostream::operator<<")
def _(m, n, fn, this, a):
    m.effect("print", args=[x for x in m.snap(a, fn)])
    return this if this is not None else a[0]
# iterators are pointers
@model("__gnu_cxx::__normal_iterator::operator*")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); return m.deref(v, m.ty(fn["ret"]).get("el"))
@model("__gnu_cxx::__normal_iterator::operator->")
def _(m, n, fn, this, a): return thisv(m, n, fn, this)[0]
def iter_el(m, fn):
    for t in (fn.get("cls"),):
        r = m.p.recs[t]
        if r.get("tat"): return m.ty(r["tat"][0]).get("el")
    return None
@model("__gnu_cxx::__normal_iterator::operator++", "__gnu_cxx::__normal_iterator::operator--", "__gnu_cxx::__normal_iterator::operator+=", "__gnu_cxx::__normal_iterator::operator-=")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); et = iter_el(m, fn); op = fn["n"]
    d = P(1)
    if op.endswith("=") : d = m.num(argv(m, fn, a)[0])
    if "-" in op[8:]: d = -d
    m.write(this, m.padd(v, d, et), t)
    return v if (a and not op.endswith("=")) else this
@model("__gnu_cxx::__normal_iterator::operator+", "__gnu_cxx::__normal_iterator::operator-", "__gnu_cxx::__normal_iterator::operator[]")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); et = iter_el(m, fn); d = m.num(argv(m, fn, a)[0])
    if fn["n"] == "operator[]": return m.deref(m.padd(v, d, et), et)
    return m.padd(v, d if fn["n"] == "operator+" else -d, et)
@model("__gnu_cxx::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator<", "__gnu_cxx::operator>", "__gnu_cxx::operator<=", "__gnu_cxx::operator>=", "__gnu_cxx::operator-")
def _(m, n, fn, this, a):
    x, y = argv(m, fn, a)[:2]
    et = None
    for p in fn["params"]:
        r = m.strip(p["t"])
        if r["k"] == "rec": et = m.ty(m.p.recs[r["rec"]]["tat"][0]).get("el"); break
    op = fn["n"][8:]
    if op == "==": return m.eq(x, y)
    if op == "!=": return bnot(m.eq(x, y))
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.base is y.base and x.path == y.path:
        d = (x.off or ZERO) - (y.off or ZERO)
        if op == "-":
            d = divb(d, m.size(et))
            return d if d is not None else m.sym(fn["ret"], fresh("itdiff"))
        d2 = divb(d, m.size(et))
        if d2 is not None: d = d2
        return {"<": ge0(-d - 1), ">": ge0(d - 1), "<=": ge0(-d), ">=": ge0(d)}[op]
    return m.sym(fn["ret"], fresh("itcmp"))
@model("std::_Bit_reference::operator bool")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); return m.boolean(v)
@model("std::distance")
def _(m, n, fn, this, a):
    x, y = argv(m, fn, a)[:2]
    s = m.strip(fn["params"][0]["t"])
    et = s.get("el") if s["k"] == "ptr" else m.ty(m.p.recs[s["rec"]]["tat"][0]).get("el")
    d = divb((y.off or ZERO) - (x.off or ZERO), m.size(et)) if isinstance(x, Ptr) and isinstance(y, Ptr) and x.base is y.base else None
    return d if d is not None else P(fresh("dist"))
@model("std::begin", "std::cbegin", "std::end", "std::cend")
def _(m, n, fn, this, a):
    t = m.ty(fn["params"][0]["t"]).get("el"); v = m.read(a[0], t)
    et = m.eltype(m.ty(t)); es = m.size(et)
    return seqptr(m, a[0], ZERO if "begin" in fn["n"] else vsize(v), es)

# algorithms
def it_el(m, fn, k=0):
    s = m.strip(fn["params"][k]["t"])
    if s["k"] == "ptr": return s["el"]
    if s["k"] == "rec" and m.p.recs[s["rec"]].get("tat"): return m.ty(m.p.recs[s["rec"]]["tat"][0]).get("el")
    return None
def rng(m, fn, b, e, k=0):
    et = it_el(m, fn, k); es = m.size(et)
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.base is e.base and b.path == e.path:
        N = divb((e.off or ZERO) - (b.off or ZERO), es)
        if N is not None: return et, es, N
    m.note("iterator range"); return et, es, P(fresh("len"))
def at(m, b, i, et): return m.deref(m.padd(b, i, et), et)
@model("std::copy", "std::copy_n", "std::move_range")
def _(m, n, fn, this, a):
    b = argv(m, fn, a)
    if fn["n"] == "copy":
        et, es, N = rng(m, fn, b[0], b[1]); src, dst = b[0], b[2]; dt = it_el(m, fn, 2)
    else:
        et = it_el(m, fn, 0); es = m.size(et); N = m.num(b[1]); src, dst = b[0], b[2]; dt = it_el(m, fn, 2)
    if dt is None:
        m.note("copy through adaptor"); return UNDEF
    def body(i):
        v = m.read(at(m, src, i, et), et); m.write(at(m, dst, i, dt), v, dt)
    m.repeat(N, body)
    return m.padd(dst, N, dt)
@model("memcpy", "std::memcpy", "memmove", "std::memmove")
def _(m, n, fn, this, a):
    dst, src, N = a[0], a[1], m.num(a[2])
    et = None
    if n is not None:
        x = n["a"][0]
        while x["k"] == "cast": x = x["e"]
        if x.get("t") and m.strip(x["t"])["k"] == "ptr": et = m.strip(x["t"])["el"]
    es = m.size(et) if et else 1
    k = divb(N, es)
    if k is None: m.note("memcpy size"); k = P(fresh("len"))
    def body(i):
        v = m.read(at(m, src, i, et), et); m.write(at(m, dst, i, et), v, et)
    m.repeat(k, body)
    return dst
@model("std::fill", "std::fill_n")
def _(m, n, fn, this, a):
    b = argv(m, fn, a)
    if fn["n"] == "fill": et, es, N = rng(m, fn, b[0], b[1])
    else: et = it_el(m, fn, 0); N = m.num(b[1])
    m.repeat(N, lambda i: m.write(at(m, b[0], i, et), b[2], et))
    return UNDEF
@model("std::iota")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); et, es, N = rng(m, fn, b[0], b[1])
    m.repeat(N, lambda i: m.write(at(m, b[0], i, et), m.num(b[2]) + i, et)); return UNDEF
@model("std::accumulate")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); et, es, N = rng(m, fn, b[0], b[1])
    acc = m.temp(b[2])
    def body(i):
        x = at(m, b[0], i, et)
        if len(b) > 3: v = m.call_value(b[3], [m.read(acc), x], n)
        else: v = m.num(m.read(acc)) + m.num(m.read(x, et))
        if isinstance(v, Poly) or not hasattr(v, "base") or isinstance(v, (Obj, Ptr)): pass
        else: v = m.read(v)
        m.write(acc, v)
    m.repeat(N, body)
    return m.read(acc)
def pred_loop(m, fn, b, n, init, step):
    et, es, N = rng(m, fn, b[0], b[1])
    acc = m.temp(init)
    def body(i):
        x = at(m, b[0], i, et)
        r = m.call_value(b[2], [x], n)
        step(acc, r, i, x)
    m.repeat(N, body)
    return m.read(acc)
def bread(m, r):
    from interp import MLV
    return m.boolean(m.read(r) if isinstance(r, (LV, MLV)) else r)
@model("std::any_of")
def _(m, n, fn, this, a): return pred_loop(m, fn, argv(m, fn, a), n, FALSE, lambda acc, r, i, x: m.write(acc, bor(m.read(acc), bread(m, r))))
@model("std::all_of")
def _(m, n, fn, this, a): return pred_loop(m, fn, argv(m, fn, a), n, TRUE, lambda acc, r, i, x: m.write(acc, band(m.read(acc), bread(m, r))))
@model("std::none_of")
def _(m, n, fn, this, a): return pred_loop(m, fn, argv(m, fn, a), n, TRUE, lambda acc, r, i, x: m.write(acc, band(m.read(acc), bnot(bread(m, r)))))
@model("std::count_if")
def _(m, n, fn, this, a): return pred_loop(m, fn, argv(m, fn, a), n, ZERO, lambda acc, r, i, x: m.write(acc, m.read(acc) + bd_poly(bread(m, r))))
@model("std::for_each")
def _(m, n, fn, this, a): return pred_loop(m, fn, argv(m, fn, a), n, ZERO, lambda acc, r, i, x: None)
@model("std::count")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); et, es, N = rng(m, fn, b[0], b[1]); acc = m.temp(ZERO)
    m.repeat(N, lambda i: m.write(acc, m.read(acc) + bd_poly(m.eq(m.read(at(m, b[0], i, et), et), b[2])))); return m.read(acc)
@model("std::transform")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); et, es, N = rng(m, fn, b[0], b[1])
    if len(b) == 4:
        dt = it_el(m, fn, 2)
        if dt is None: m.note("transform through adaptor"); return UNDEF
        def body(i):
            v = m.call_value(b[3], [at(m, b[0], i, et)], n); v = m.read(v) if not isinstance(v, (Poly, BD, Ptr, Obj, Vec, Sym, GV, Undef)) else v
            m.write(at(m, b[2], i, dt), m.coerce(v, dt), dt)
        m.repeat(N, body); return m.padd(b[2], N, dt)
    dt = it_el(m, fn, 3); e2 = it_el(m, fn, 2)
    def body(i):
        v = m.call_value(b[4], [at(m, b[0], i, et), at(m, b[2], i, e2)], n); v = m.read(v) if not isinstance(v, (Poly, BD, Ptr, Obj, Vec, Sym, GV, Undef)) else v
        m.write(at(m, b[3], i, dt), m.coerce(v, dt), dt)
    m.repeat(N, body); return m.padd(b[3], N, dt)
@model("std::find", "std::find_if")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); et, es, N = rng(m, fn, b[0], b[1])
    pos = m.temp(N); done = m.temp(FALSE)
    def body(i):
        x = at(m, b[0], i, et)
        c = m.eq(m.read(x, et), b[2]) if fn["n"] == "find" else bread(m, m.call_value(b[2], [x], n))
        c = band(c, bnot(m.read(done)))
        m.write(pos, ite(c, i, m.num(m.read(pos)))); m.write(done, bor(m.read(done), c))
    m.repeat(N, body)
    return m.padd(b[0], m.num(m.read(pos)), et)
@model("std::equal")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); et, es, N = rng(m, fn, b[0], b[1]); acc = m.temp(TRUE)
    m.repeat(N, lambda i: m.write(acc, band(m.read(acc), m.eq(m.read(at(m, b[0], i, et), et), m.read(at(m, b[2], i, et), et))))); return m.read(acc)
@model("std::max_element", "std::min_element")
def _(m, n, fn, this, a):
    b = argv(m, fn, a); et, es, N = rng(m, fn, b[0], b[1])
    if N.is_const and N.const <= 16 and N.const > 0:
        best = m.num(m.read(at(m, b[0], ZERO, et), et)); pos = ZERO
        for i in range(1, int(N.const)):
            x = m.num(m.read(at(m, b[0], P(i), et), et))
            c = lt(best, x) if fn["n"] == "max_element" else lt(x, best)
            pos = ite(c, P(i), pos); best = pmax(best, x) if fn["n"] == "max_element" else pmin(best, x)
        # reading through the result yields the extreme value
        t = m.temp(best)
        return Ptr(t.base, (), None)
    acc = m.temp(m.num(m.read(at(m, b[0], ZERO, et), et)))
    def body(i):
        x = m.num(m.read(at(m, b[0], i, et), et)); m.write(acc, pmax(m.read(acc), x) if fn["n"] == "max_element" else pmin(m.read(acc), x))
    m.repeat(N, body)
    return Ptr(acc.base, (), None)
@model("std::array::fill")
def _(m, n, fn, this, a):
    v, t = thisv(m, n, fn, this); x = argv(m, fn, a)[0]
    m.write(this, VElems(v.et, v.es, [x] * len(v.el)) if isinstance(v, VElems) else v, t); return UNDEF

@model("std::get")
def _(m, n, fn, this, a):
    ta = fn.get("ta") or ["0"]
    y = m.strip(fn["params"][0]["t"])
    if y["k"] == "rec" and "pair" in m.p.recs[y["rec"]]["q"]: return m.member(a[0], "first" if ta[0] == "0" else "second")
    return m.index(a[0], P(int(ta[0])), m.eltype(y))

PURE = ("std::basic_string::", "std::stringstream", "std::basic_stringstream", "std::basic_ostream", "std::basic_ofstream", "std::chrono", "std::allocator", "std::setw", "std::setprecision", "std::ctype", "std::ios_base", "std::basic_ios")
@model("std::*")
def _(m, n, fn, this, a):
    q = normq_(fn["q"])
    if not any(q.startswith(p) for p in PURE): m.note("unmodelled " + q)
    args = tuple(m.term(x) for x in m.snap(a, fn) if not isinstance(x, Undef))
    if this is not None: args = (Ptr(this.base, this.path) if isinstance(this, LV) else T("multi"),) + args
    if m.ty(fn["ret"])["k"] == "void": m.effect("call", q=q, args=list(args), this=None, pointees=[], file=fn.get("file")); return UNDEF
    if m.ty(fn["ret"])["k"] == "ref" and this is not None and m.strip(fn["ret"])["k"] == "rec" and m.strip(fn["ret"]).get("rec") == fn.get("cls"): return this
    try: r = m.sym(fn["ret"], T("call", q, *args))
    except TypeError: r = m.sym(fn["ret"], T("call", q, next(_c)))
    return m.temp(r) if m.ty(fn["ret"])["k"] == "ref" else r
