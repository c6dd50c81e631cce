"""P20: the C interface selects the matching plan, precision and operation."""
from harness import *
TITLE = "The C interface selects the matching plan, precision and operation"
TECHNIQUE = "value-flow analysis of every extern C function for every back end, plan kind, scaling and failure: which member of which class is called with which arguments, what is stored, returned, released"
LEVEL = "proof"
NOTE = "back ends compiled here: stock, fftw, mkl"
CODES = {"stock": 0, "fftw": 1, "mkl": 2, "cufft": 10, "rocfft": 11}
ELEM = {"s": "float", "d": "double", "c": "std::complex<float>", "z": "std::complex<double>"}
BASE = T("sym", "plan")
FFT = T("sym", "planfft")
def norm(s): return s.replace("const", "").replace("struct", "").replace(" ", "").replace("std::", "").replace("_Complex", "complex")
def kind(p, cls):
    r = p.recs[cls]; q = r["q"]
    return ("r2c" if "fft3d_r2c" in q else "c2c"), r["ta"][0].replace("heffte::backend::", "")
def hooks(fail=None):
    def method(m, fn, this, a, n):
        v = m.snap(a, fn)
        m.effect("use", cls=fn["cls"], fn=fn["n"], args=v, pt=[x["t"] for x in fn["params"]], base=this.base if isinstance(this, LV) and not this.path else None, id=fn["id"])
        if fn["n"].startswith("size_"): return P(T("ret", fn["cls"], fn["n"]))
        return UNDEF
    def ctor(m, fn, this, a, n):
        m.effect("construct", cls=fn["cls"], args=m.snap(a, fn), pt=[x["t"] for x in fn["params"]])
        if fail: m.throw_(fail); return UNDEF
        return Obj(fn["cls"], {}, T("made", fn["cls"]))
    def dtor(m, fn, this, a, n): return UNDEF
    h = {}
    for c in ("heffte::fft3d", "heffte::fft3d_r2c"):
        for x in ("forward", "backward", "size_inbox", "size_outbox", "size_workspace", "size_comm_buffers"): h[c + "::" + x] = method
        h[c + "::" + c.rsplit("::", 1)[1]] = ctor
    return h
def plan_arg(m, p, f, be, r2c):
    """the handle of a plan of back end be"""
    t = m.ty(f["params"][0]["t"])
    rec = m.ty(t["el"])["rec"] if t["k"] == "ptr" else None
    if rec is None: raise AnchorMissing("heffte_plan is a pointer to a record")
    m.st.s[BASE] = Obj(rec, {"backend_type": P(be), "using_r2c": P(r2c), "fft": Ptr(FFT)}, BASE)
    return Ptr(BASE)
def is_base(x, b): return isinstance(x, Ptr) and x.base is b and not x.path and (x.off is None or P(x.off) == ZERO or x.off is ZERO)
def tx(v): return show(v) if isinstance(v, (Poly, BD, Term)) else repr(v)
def live(m): return [e for e in flatten(m.rec) if e.g is not FALSE]
def backends(p):
    b = sorted({p.recs[f["cls"]]["ta"][0].replace("heffte::backend::", "") for f in fns(p, "heffte::fft3d::fft3d")} & set(CODES))
    if "stock" not in b: raise AnchorMissing("back ends of the C interface: %s" % b)
    return b
def enum_consts(p, q):
    e = p.enums.get(q)
    if e is None: raise AnchorMissing(q)
    return {c["n"]: int(c["v"]) for c in e["vals"]} if "vals" in e else {c[0]: int(c[1]) for c in e["e"]}
# ---------------------------------------------------------------- transforms
def transform(ctx, p, name, direction, a, b, buffered):
    f = cfn(p, name); loc = (f["file"], f["line"])
    SC = enum_consts(p, "heffte::scale"); want_s = {0: SC["none"], 1: SC["full"], 2: SC["symmetric"]}
    mixed = a in "sd" or b in "sd"
    for be in backends(p):
        for r2c in ((0, 1) if mixed else (0,)):
            for s in (0, 1, 2):
                m = machine(p, hooks())
                args = {0: plan_arg(m, p, f, CODES[be], r2c), len(f["params"]) - 1: P(s)}
                arrays = [T("sym", "array%d" % i) for i in range(len(f["params"]) - 2)]
                for i, t in enumerate(arrays): args[i + 1] = Ptr(t, (), ZERO)
                call(m, f, args); ctx.absorb(m)
                w = "%s on a %s plan of %s, scale %d" % (name, "real-to-complex" if r2c else "complex", be, s)
                es = [e for e in live(m)]
                us = [e for e in es if e.e.kind == "use"]; other = [e for e in es if e.e.kind not in ("use",)]
                if not ctx.check(len(us) == 1 and us[0].g is TRUE and not us[0].loops, w + ": one transform runs", "runs %s" % [(e.e.d["fn"], tx(e.g)) for e in us], loc): continue
                d = us[0].e.d
                ctx.check(d["base"] is FFT, w + ": on the object of the plan", tx(d["base"]), loc)
                ctx.check(kind(p, d["cls"]) == ("r2c" if r2c else "c2c", be), w + ": on an object of the class it was created with", "uses %s<%s>" % kind(p, d["cls"]), us[0].e.loc)
                ctx.check(d["fn"] == direction, w + ": direction", d["fn"], us[0].e.loc)
                ptrs = [(v, t) for v, t in zip(d["args"], d["pt"]) if p.types[t]["k"] == "ptr"]
                ctx.check(len(ptrs) == len(arrays) and all(is_base(v, t) for (v, _), t in zip(ptrs, arrays)), w + ": the arrays keep their roles", "called with %s" % [tx(v) for v, _ in ptrs], us[0].e.loc)
                el = [norm(p.types[p.types[t]["el"]]["s"]) for _, t in ptrs]
                cplx = ELEM["c" if a in "sc" else "z"]
                want = [norm(ELEM[a]), norm(ELEM[b])] + ([norm(cplx)] if buffered else [])
                ctx.check(el == want, w + ": element types", "%s instead of %s" % (el, want), us[0].e.loc)
                sc = [v for v, t in zip(d["args"], d["pt"]) if p.types[t]["k"] == "enum"]
                ctx.check(len(sc) == 1 and P(sc[0]) == P(want_s[s]), w + ": scaling", tx(sc), us[0].e.loc)
                ba = [v for v, t in zip(d["args"], d["pt"]) if p.types[t]["k"] == "int"]
                ctx.check(all(P(v) == ONE for v in ba), w + ": one transform, no batch", tx(ba), us[0].e.loc)
                ctx.check(not [e for e in other if e.e.kind in ("throw", "new", "delete")], w + ": nothing else happens", str(other[:2]), loc)
                h = m.st.s[BASE]
                ctx.check(P(h.f["backend_type"]) == P(CODES[be]) and P(h.f["using_r2c"]) == P(r2c) and is_base_ptr(h.f["fft"]), w + ": the handle is unchanged", tx(h), loc)
def is_base_ptr(x): return isinstance(x, Ptr) and x.base is FFT
def cfn(p, name):
    f = fns(p, name)
    if len(f) != 1: raise AnchorMissing(name)
    return f[0]
# ---------------------------------------------------------------- queries
def query(ctx, p, name):
    f = cfn(p, name); loc = (f["file"], f["line"])
    for be in backends(p):
        for r2c in (0, 1):
            m = machine(p, hooks()); r = call(m, f, {0: plan_arg(m, p, f, CODES[be], r2c)}); ctx.absorb(m)
            w = "%s on a %s plan of %s" % (name, "real-to-complex" if r2c else "complex", be)
            if name in ("heffte_get_backend", "heffte_is_r2c"):
                want = P(CODES[be]) if name == "heffte_get_backend" else P(r2c)
                ctx.check(not isinstance(r, Undef) and P(r) == want, w, "returns %s" % tx(r), loc); continue
            us = [e for e in live(m) if e.e.kind == "use"]
            ok = len(us) >= 1 and not isinstance(r, Undef)
            tt = [e for e in us if P(r) == P(T("ret", e.e.d["cls"], name[7:]))] if ok else []
            if ctx.check(len(tt) >= 1, w + ": returns the value of the plan", "returns %s" % tx(r), loc):
                ctx.check(kind(p, tt[0].e.d["cls"]) == ("r2c" if r2c else "c2c", be) and tt[0].e.d["base"] is FFT, w + ": asked from the object of the plan", "asks %s<%s>" % kind(p, tt[0].e.d["cls"]), tt[0].e.loc)
# ---------------------------------------------------------------- options
def defaults_of(p, be):
    """default_options of the library, from this unit or else from the main unit"""
    for q in (p, None):
        q = q or program("int")
        g = [x for x in fns(q, "heffte::default_options") if x["ta"][0].endswith("::" + be)]
        if g: return call(machine(q), g[0], {})
    raise AnchorMissing("default_options<%s>" % be)
def set_defaults(ctx, p):
    f = cfn(p, "heffte_set_default_options"); loc = (f["file"], f["line"])
    for be in list(backends(p)) + [None]:
        code = CODES[be] if be else 77
        m = machine(p); O = T("sym", "copts"); rec = m.ty(m.ty(f["params"][1]["t"])["el"])["rec"]
        m.st.s[O] = Obj(rec, {k: UNDEF for k in m.fields(rec)})
        r = call(m, f, {0: P(code), 1: Ptr(O)}); ctx.absorb(m); o = m.st.s[O]
        w = "heffte_set_default_options(%s)" % (be or "invalid")
        if be is None:
            ctx.check(P(r) == ONE, w + ": reports error 1", tx(r), loc)
            ctx.check(all(v is UNDEF or isinstance(v, Undef) for v in o.f.values()), w + ": writes nothing", tx(o), loc); continue
        ctx.check(P(r) == ZERO, w + ": succeeds", tx(r), loc)
        c = defaults_of(p, be)
        A = enum_consts(p, "heffte::reshape_algorithm")
        code_of = {A["alltoallv"]: 0, A["p2p_plined"]: 1, A["p2p"]: 2}
        for k in sorted(o.f):
            v = o.f[k]
            if isinstance(v, Undef): ctx.check(False, w + ": sets " + k, "left uninitialised", loc); continue
            if k == "algorithm": ctx.check(any(P(c.f[k]) == P(x) and P(v) == P(y) for x, y in code_of.items()), w + ": algorithm", tx(v), loc)
            else: ctx.check(k in c.f and P(v) == (ONE if c.f[k] is TRUE else ZERO if c.f[k] is FALSE else P(-7)), w + ": " + k, "%s, the library default is %s" % (tx(v), tx(c.f.get(k))), loc)
# ---------------------------------------------------------------- creation
SYMS = ("inbox_low", "inbox_high", "inbox_order", "outbox_low", "outbox_high", "outbox_order")
def create(ctx, p, r2c):
    f = cfn(p, "heffte_plan_create_r2c" if r2c else "heffte_plan_create"); n = len(f["params"])
    loc = (f["file"], f["line"]); A = enum_consts(p, "heffte::reshape_algorithm")
    hrec = p.types[p.types[p.types[f["params"][n - 1]["t"]]["el"]]["el"]]["rec"]; orec = p.types[p.types[f["params"][n - 2]["t"]]["el"]]["rec"]
    def setup(be, orders, opts, fail=None):
        m = machine(p, hooks(fail)); PP = T("sym", "planpp"); m.st.s[PP] = Ptr(T("sym", "stale"))
        args = {0: P(be), n - 1: Ptr(PP)}
        for i, s in enumerate(SYMS):
            if s.endswith("order") and not orders[i > 3]: args[1 + i] = NULL
            else: args[1 + i] = Ptr(T("sym", s), (), ZERO)
        k = 7
        if r2c: args[7] = P(T("sym", "r2c_direction")); k = 8
        args[k] = Sym(T("sym", "comm"))
        O = T("sym", "copts")
        if opts is None: args[n - 2] = NULL
        else: m.st.s[O] = Obj(orec, dict(opts), O); args[n - 2] = Ptr(O)
        for t in [T("sym", s) for s in SYMS] + [O, PP]: m.distinct.add(t)
        r = call(m, f, args)
        return m, r, PP
    base = {"use_reorder": P(T("sym", "o_reorder")), "algorithm": ZERO, "use_pencils": P(T("sym", "o_pencils")), "use_gpu_aware": P(T("sym", "o_gpu"))}
    kindname = "real-to-complex" if r2c else "complex"
    for be in backends(p):
        for orders in ((1, 1), (0, 0), (1, 0), (0, 1)):
            for alg in (0, 1, 2, None) if orders == (1, 1) else (None,):
                m, r, PP = setup(CODES[be], orders, None if alg is None else dict(base, algorithm=P(alg))); ctx.absorb(m)
                w = "create a %s plan of %s%s%s" % (kindname, be, "" if orders == (1, 1) else ", %s order not given" % " and ".join(x for x, o in zip(("input", "output"), orders) if not o), ", default options" if alg is None else ", algorithm code %d" % alg)
                ctx.check(not isinstance(r, Undef) and P(r) == ZERO, w + ": succeeds", tx(r), loc)
                h = m.st.s[PP]; es = live(m)
                cons = [e for e in es if e.e.kind == "construct"]
                if not ctx.check(len(cons) == 1 and cons[0].g is TRUE, w + ": one object is constructed", str(len(cons)), loc): continue
                c = cons[0].e.d
                ctx.check(kind(p, c["cls"]) == ("r2c" if r2c else "c2c", be), w + ": class", "%s<%s>" % kind(p, c["cls"]), cons[0].e.loc)
                o = m.st.s.get(h.base) if isinstance(h, Ptr) else None
                if ctx.check(isinstance(o, Obj) and o.rec == hrec and not h.path, w + ": the handle is stored", tx(h), loc):
                    ctx.check(P(o.f["backend_type"]) == P(CODES[be]), w + ": the handle records the back end", tx(o.f["backend_type"]), loc)
                    ctx.check(P(o.f["using_r2c"]) == P(r2c), w + ": the handle records the kind", tx(o.f["using_r2c"]), loc)
                    x = m.st.s.get(o.f["fft"].base) if isinstance(o.f["fft"], Ptr) else None
                    ctx.check(isinstance(x, Obj) and x.rec == c["cls"], w + ": the handle holds the constructed object", tx(o.f["fft"]), loc)
                # boxes
                bx = [v for v, t in zip(c["args"], c["pt"]) if is_rec(p, t, "box3d")]
                for k, (v, nm) in enumerate(zip(bx, ("inbox", "outbox"))):
                    o = m.read(v) if isinstance(v, (LV, MLV)) else v
                    if not ctx.check(isinstance(o, Obj), w + ": " + nm, tx(v), loc): continue
                    for fldn, s in (("low", nm + "_low"), ("high", nm + "_high"), ("order", nm + "_order")):
                        got = [P(x) for x in elements(m, o.f[fldn])]
                        want = [P(0), P(1), P(2)] if fldn == "order" and not orders[k] else [LOAD(T("sym", s), 4 * i) for i in range(3)]
                        ctx.check(len(got) == 3 and got == want, w + ": %s of the %s" % (fldn, nm), "%s instead of %s" % (tx(got), tx(want)), cons[0].e.loc)
                ctx.check(len(bx) == 2, w + ": two boxes", tx(bx), loc)
                rest = [(v, t) for v, t in zip(c["args"], c["pt"]) if not is_rec(p, t, "box3d")]
                if r2c:
                    dv = [v for v, t in rest if p.types[t]["k"] == "int"]
                    ctx.check(bool(dv) and P(dv[0]) == P(T("sym", "r2c_direction")), w + ": direction of the real axis", tx(dv), cons[0].e.loc)
                ctx.check(any("comm" in tx(v) for v, t in rest if not is_rec(p, t, "plan_options")), w + ": communicator", tx([v for v, _ in rest]), cons[0].e.loc)
                ov = [v for v, t in rest if is_rec(p, t, "plan_options")]
                ov = [m.read(v) if isinstance(v, (LV, MLV)) else v for v in ov]
                if not ctx.check(len(ov) == 1 and isinstance(ov[0], Obj), w + ": options are passed", tx(ov), loc): continue
                o = ov[0]
                want_alg = {0: "alltoallv", 1: "p2p_plined", 2: "p2p", None: "alltoallv"}[alg]
                ctx.check(P(o.f["algorithm"]) == P(A[want_alg]), w + ": algorithm", tx(o.f["algorithm"]), cons[0].e.loc)
                if alg is None:
                    d = defaults_of(p, be)
                    for k in ("use_reorder", "use_pencils", "use_gpu_aware"): ctx.check(o.f[k] is d.f[k], w + ": default of " + k, tx(o.f[k]), cons[0].e.loc)
                else:
                    for k, s in (("use_reorder", "o_reorder"), ("use_pencils", "o_pencils"), ("use_gpu_aware", "o_gpu")):
                        ok = all(btruth(o.f[k], T("sym", s), v) == (v != 0) for v in (0, 1, 2, -1))
                        ctx.check(ok, w + ": option " + k, tx(o.f[k]), cons[0].e.loc)
                ctx.check(P(o.f["num_sub"]) == P(-1), w + ": all ranks are used", tx(o.f["num_sub"]), cons[0].e.loc)
                ctx.check(not [e for e in es if e.e.kind in ("throw", "delete")], w + ": nothing is released", "", loc)
        # failures
        for what, fail, alg in (("construction fails with std::runtime_error", "std::runtime_error", 0), ("construction fails with std::invalid_argument", "std::invalid_argument", 0), ("out of memory", "std::bad_alloc", 0), ("invalid algorithm code", None, 3), ("invalid algorithm code", None, -1)):
            m, r, PP = setup(CODES[be], (1, 1), dict(base, algorithm=P(alg)), fail); ctx.absorb(m)
            w = "create a %s plan of %s, %s" % (kindname, be, what + ("" if fail else " %d" % alg))
            esc = isinstance(r, Undef) or m.st.dead
            if not ctx.check(not esc, w + ": no exception leaves the C function", "an exception escapes", loc): continue
            ctx.check(P(r) == P(2), w + ": reports error 2", tx(r), loc)
            ctx.check(isinstance(m.st.s[PP], Ptr) and m.st.s[PP].base is NULL.base, w + ": the handle is null", tx(m.st.s[PP]), loc)
            es = live(m); nw = [e for e in es if e.e.kind == "new" and e.e.d.get("rec") == hrec]; de = [e for e in es if e.e.kind == "delete"]
            ctx.check(len(nw) == len(de) and all(any(y.e.d["ptr"].base is x.e.d["ptr"].base for y in de) for x in nw), w + ": the handle is released once", "%d allocated, %d released" % (len(nw), len(de)), loc)
    m, r, PP = setup(77, (1, 1), dict(base)); ctx.absorb(m)
    w = "create a %s plan of an invalid back end" % kindname
    ctx.check(not isinstance(r, Undef) and P(r) == ONE, w + ": reports error 1", tx(r), loc)
    ctx.check(not [e for e in live(m) if e.e.kind == "construct"], w + ": constructs nothing", "", loc)
    es = live(m)
    ctx.check(sum(1 for e in es if e.e.kind == "new") == sum(1 for e in es if e.e.kind == "delete"), w + ": keeps no memory", "", loc)
def btruth(b, t, v):
    b = subst(b, {t: P(v)}) if isinstance(b, BD) else b
    return True if b is TRUE else False if b is FALSE else None
def is_rec(p, t, name):
    y = p.types[t]
    if y["k"] == "ref": y = p.types[y["el"]]
    return y["k"] == "rec" and p.recs[y["rec"]]["q"].split("<")[0].endswith("heffte::" + name)
def elements(m, v):
    if hasattr(v, "el"): return v.el if isinstance(v.el, (list, tuple)) else [v.el[i] for i in range(3)]
    return []
def LOAD(mem, off): return P(T("load", mem, P(off), 4))
# ---------------------------------------------------------------- release
def destroy(ctx, p):
    f = cfn(p, "heffte_plan_destroy"); loc = (f["file"], f["line"])
    for be in backends(p):
        for r2c in (0, 1):
            m = machine(p, hooks()); r = call(m, f, {0: plan_arg(m, p, f, CODES[be], r2c)}); ctx.absorb(m)
            w = "heffte_plan_destroy on a %s plan of %s" % ("real-to-complex" if r2c else "complex", be)
            ctx.check(not isinstance(r, Undef) and P(r) == ZERO, w + ": succeeds", tx(r), loc)
            de = [e for e in live(m) if e.e.kind == "delete"]
            a = [e for e in de if e.e.d["ptr"].base is FFT]; b = [e for e in de if e.e.d["ptr"].base is BASE]
            ctx.check(len(a) == 1 and a[0].g is TRUE and a[0].e.d["rec"] is not None and kind(p, a[0].e.d["rec"]) == ("r2c" if r2c else "c2c", be), w + ": the object is released once, as the class it was created with", "released as %s" % [p.recs[e.e.d["rec"]]["q"] if e.e.d["rec"] is not None else "?" for e in a], loc)
            ctx.check(len(b) == 1 and b[0].g is TRUE, w + ": the handle is released once", str(len(b)), loc)
            ctx.check(len(de) == len(a) + len(b) and (not a or not b or de.index(a[0]) < de.index(b[0])), w + ": nothing else is released, the handle last", "", loc)
    m = machine(p, hooks()); r = call(m, f, {0: plan_arg(m, p, f, 77, 0)}); ctx.absorb(m)
    ctx.check(not isinstance(r, Undef) and P(r) == P(3) and not [e for e in live(m) if e.e.kind == "delete"], "heffte_plan_destroy on an invalid back end: reports error 3 and releases nothing", tx(r), loc)
def run(ctx):
    ctx.rules = ["heffte_<direction>_<in>2<out>[_buffered]: exactly one call of fft3d / fft3d_r2c (by kind) of the handle's back end, with the element types, arrays, direction and scaling of the name and arguments",
                 "queries return the value of the object the handle was created with", "create: class, boxes, memory order, real axis, communicator, options, error codes 1 and 2, null handle and no leak on failure, no exception escapes", "destroy: released once as the created class; error 3"]
    p = unit("src/heffte_c.cpp", "c"); its = []
    names = [(d, a, b, bf) for d, prs in (("forward", ("sc", "cc", "dz", "zz")), ("backward", ("cs", "cc", "zd", "zz"))) for a, b in prs for bf in (False, True)]
    for d, a, b, bf in names:
        nm = "heffte_%s_%s2%s%s" % (d, a, b, "_buffered" if bf else "")
        its.append(lambda ctx, x=(nm, d, a, b, bf): transform(ctx, p, *x))
    for nm in ("heffte_size_inbox", "heffte_size_outbox", "heffte_size_workspace", "heffte_get_backend", "heffte_is_r2c"): its.append(lambda ctx, nm=nm: query(ctx, p, nm))
    its.append(lambda ctx: set_defaults(ctx, p))
    for r2c in (0, 1): its.append(lambda ctx, r2c=r2c: create(ctx, p, r2c))
    its.append(lambda ctx: destroy(ctx, p))
    ctx.parallel(its, lambda ctx, it: it(ctx))
