"""P21: the Fortran and Python interfaces agree with the C / C++ interface."""
from harness import *
import ast, pyabs, f90
from pyabs import Py, S, Inst, PyRaise, Unsupported, explore, keyof
from checks import p20
from checks.p20 import tx
TITLE = "Fortran and Python interfaces agree with the C/C++ interface"
TECHNIQUE = "abstract interpretation of the Python module's syntax tree per array type, plan kind and path against the declarations of the C header; substitution through the Fortran wrappers and value-flow analysis of their C++ side"
NOTE = "C++ side of the Fortran wrappers analysed for the back ends compiled here (stock, fftw, mkl); the Fortran modules of the other back ends are compared against the same signatures"
PYF = "python/heffte.py"
DT = ("float32", "float64", "complex64", "complex128")
def path(f): return os.path.join(REPO, f)
def read(f):
    if not os.path.exists(path(f)): raise AnchorMissing(f)
    return open(path(f)).read()
def macros(prefix):
    t = read("include/heffte_c_defines.h")
    r = {m.group(1): int(m.group(2)) for m in re.finditer(r"^\s*#\s*define\s+%s(\w+)\s+\(?(-?\d+)\)?" % prefix, t, re.M)}
    if not r: raise AnchorMissing("macros " + prefix)
    return r
# ------------------------------------------------------------------ Python
def np_(n): return S("n", "numpy", n)
DISTINCT = [np_(x) for x in DT + ("int32", "int64")]
def runpy(tree, body, facts=None):
    def make(script):
        py = Py(tree, facts, script, DISTINCT); out = None
        py.facts.update({("eq", "x", "y"): False})
        try: py.module()
        except PyRaise as e: raise AnchorMissing("the Python module raises %s when loaded" % e.name)
        py.calls = []
        try: out = ("value", body(py))
        except PyRaise as e: out = ("raise", e.name)
        return py, out
    return explore(make)
def isc(f, name=None): return isinstance(f, S) and f.k[0] == "n" and f.k[1] == "libheffte" and len(f.k) == 3 and (name is None or f.k[2] == name)
NEEDED = {"heffte_%s_%s%s" % (d, c, b) for d, cs in (("forward", ("s2c", "c2c", "d2z", "z2z")), ("backward", ("c2s", "c2c", "z2d", "z2z"))) for c in cs for b in ("", "_buffered")} | {"heffte_size_inbox", "heffte_size_outbox", "heffte_size_workspace", "heffte_plan_create", "heffte_plan_create_r2c", "heffte_plan_destroy", "heffte_set_default_options"}
def ccalls(py): return [(f.k[2], a, l) for f, a, k, l in py.calls if isc(f)]
def pyclass(py, name):
    v = py.env.get(name)
    if not isinstance(v, pyabs.Cls): raise AnchorMissing("class %s in %s" % (name, PYF))
    return v
def pyconst(ctx, tree):
    for py, out in runpy(tree, lambda py: None): pass
    B = macros("Heffte_BACKEND_"); want = {"stock": B["STOCK"], "fftw": B.get("FFTW"), "mkl": B.get("MKL"), "cufft": B.get("CUFFT"), "rocm": B.get("ROCFFT"), "rocfft": B.get("ROCFFT")}
    b = pyclass(py, "backend").at
    for k, v in b.items():
        if isinstance(v, int): ctx.check(k in want and want[k] == v, "Python: code of backend.%s" % k, "%s, the C header has %s" % (v, want.get(k)), (path(PYF), 0))
    codes = {v for k, v in b.items() if isinstance(v, int)}
    ctx.check(codes == {v for k, v in want.items() if v is not None}, "Python: every back end has a constant", str(codes), (path(PYF), 0))
    if "valid" in b: ctx.check(set(b["valid"]) == codes, "Python: valid back ends are the declared ones", str(b["valid"]), (path(PYF), 0))
    SC = macros("Heffte_SCALE_"); s = pyclass(py, "scale").at
    ctx.check({k.upper(): v for k, v in s.items() if isinstance(v, int)} == SC, "Python: scaling codes", "%s, the C header has %s" % (dict(s), SC), (path(PYF), 0))
    # structures
    p = unit("src/heffte_c.cpp", "c")
    for cn, rn in (("heffte_plan", "heffte_fft_plan"), ("plan_options", "heffte_plan_options")):
        r = [x for x in p.rec_q.get(rn, []) if x.get("fields")]
        if not r: raise AnchorMissing(rn)
        cf = [(f["n"], CT(p, f["t"], member=True)) for f in r[0]["fields"]]
        pf = [(a, nm(t)) for a, t in pyclass(py, cn).at.get("_fields_", [])]
        ctx.check(pf == cf, "Python: %s has the layout of the C structure" % cn, "%s, C has %s" % (pf, cf), (path(PYF), 0))
    return py
def nm(v):
    if isinstance(v, S):
        if v.k[0] == "n": return v.k[-1]
        if v.k[0] == "call":
            a = v.k[2]; f = v.k[1]
            return "%s(%s)" % (nm(f), ",".join(nm(x) for x in a))
    if isinstance(v, tuple) and len(v) == 1: return nm(v[0])
    if isinstance(v, pyabs.Cls): return v.name
    return str(v)
def CT(p, t, member=False, proto=None):
    y = p.types[t]; k = y["k"]
    if k == "int" or k == "enum": return "c_int" if y.get("bits", 8 * (y.get("size") or 4)) == 32 else "c_longlong"
    if k == "ptr":
        e = p.types[y["el"]]
        if e["k"] == "void": return "c_void_p"
        if e["k"] == "int": return "ints"
        if e["k"] in ("float", "fp", "real") or e["s"].replace("const ", "") in ("float", "double"): return "POINTER(c_%s)" % e["s"].replace("const", "").strip()
        if e["k"] == "rec":
            n = p.recs[e["rec"]]["q"]
            return "LP_plan" if n == "heffte_fft_plan" else "POINTER(plan_options)" if n == "heffte_plan_options" else "MPI_Comm" if "mpi" in n else n
        if e["k"] == "ptr": return "POINTER(LP_plan)"
        return "ptr"
    if k == "void": return None
    if k == "rec" and "mpi" in y["s"].lower(): return "MPI_Comm"
    return y["s"]
def pydecl(ctx, py):
    p = unit("src/heffte_c.cpp", "c")
    used = {a.attr for a in ast.walk(py.tree) if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "libheffte"} - {"argtypes"}
    used |= {k.k[2] for k in getattr(py, "store", {}) if isc(k)} | NEEDED
    LP = py.env.get("LP_plan")
    def canon(v):
        if keyof(v) == keyof(LP): return "LP_plan"
        if isinstance(v, S) and v.k[0] == "call" and nm(v.k[1]) == "POINTER":
            a = v.k[2][0]
            return "POINTER(%s)" % ("LP_plan" if keyof(a) == keyof(LP) else names.get(a, nm(a)))
        if isinstance(v, S) and v.k[0] == "call" and nm(v.k[1]) == "ndpointer": return "ints" if nm(v.k[2][0]) in ("c_int", "np.int32", "int32") else "?"
        return nm(v)
    names = {id(v): k for k, v in py.env.items() if isinstance(v, pyabs.Cls)}
    n = 0
    for f in sorted(used):
        g = fns(p, f)
        if not g: ctx.check(False, "Python: %s exists in the C interface" % f, "", (path(PYF), 0)); continue
        at = getattr(py, "store", {}).get(S("n", "libheffte", f), {})
        want = [CT(p, x["t"]) for x in g[0]["params"]]
        mc = [i for i, x in enumerate(g[0]["params"]) if x["n"] == "comm"]
        for i in mc: want[i] = "MPI_Comm"
        if "argtypes" in at:
            have = [canon(x) for x in at["argtypes"]]
            for i in mc:
                if i < len(have) and keyof(at["argtypes"][i]) == keyof(py.env.get("MPI_Comm")): have[i] = "MPI_Comm"
            ctx.check(have == want, "Python: argument types of %s" % f, "%s, C has %s" % (have, want), (path(PYF), 0))
        else: ctx.check(False, "Python: argument types of %s" % f, "not declared", (path(PYF), 0))
        if g[0]["ret"] and p.types[g[0]["ret"]]["k"] != "void":
            r = at.get("restype"); ctx.check("restype" not in at or nm(r) == CT(p, g[0]["ret"]), "Python: result type of %s" % f, nm(r), (path(PYF), 0))
        n += 1
    if n < 20: raise AnchorMissing("Python uses %d C functions" % n)
def plan_inst(py, r2c):
    """a plan made by the module's own factory"""
    f = py.env.get("fft3d_r2c" if r2c else "fft3d")
    if not isinstance(f, pyabs.Fn): raise AnchorMissing("factory in " + PYF)
    i, o = S("n", "the_inbox"), S("n", "the_outbox"); c = S("n", "the_comm")
    a = [0, i, o] + ([1] if r2c else []) + [c]
    return f, a, i, o, c
def factory(ctx, tree, r2c):
    nmx = "Python %s" % ("fft3d_r2c" if r2c else "fft3d"); cn = "heffte_plan_create_r2c" if r2c else "heffte_plan_create"
    B = macros("Heffte_BACKEND_"); loc = (path(PYF), 0); good = 0
    for code in sorted(set(B.values())):
        def body(py):
            f, a, i, o, c = plan_inst(py, r2c); a[0] = code
            return py.call(f, a)
        for py, out in runpy(tree, body):
            cs = ccalls(py); cr = [x for x in cs if x[0].startswith("heffte_plan_create")]
            w = "%s, back end %d" % (nmx, code)
            if not ctx.check(len(cr) == 1 and cr[0][0] == cn, w + ": creates one plan of its kind", "calls %s, %s" % ([x[0] for x in cs], out), loc): continue
            a = cr[0][1]; n = 11 if r2c else 10
            if not ctx.check(len(a) == n, w + ": arguments", "%d arguments" % len(a), loc): continue
            i, o, c = S("n", "the_inbox"), S("n", "the_outbox"), S("n", "the_comm")
            want = [code] + [py.getattr(b, x) for b in (i, o) for x in ("low", "high", "order")] + ([1] if r2c else [])
            ctx.check([keyof(x) for x in a[:len(want)]] == [keyof(x) for x in want], w + ": back end, boxes%s in the order of the C function" % (", real axis" if r2c else ""), str(a[:len(want)]), loc)
            cm = a[len(want)]
            ctx.check("the_comm" in repr(cm), w + ": communicator", repr(cm), loc)
            op = a[n - 2]; ok = op is None
            if isinstance(op, Inst) and op.cls.name == "plan_options":
                ini = getattr(op, "init", ((), {}))
                dflt = [x for x in cs if x[0] == "heffte_set_default_options" and x[1][0] == code and x[1][1] is op]
                ok = bool(dflt) and cs.index(dflt[0]) < cs.index(cr[0])
            ctx.check(ok, w + ": the default options of the library", "options are %r%s" % (op, getattr(op, "init", "")), loc)
            err = [v for k, v in py.taken if k[0] == "eq" and "heffte_plan_create" in repr(k)]
            # the result code is compared with 0
            if out[0] == "value":
                good += 1; pl = out[1]
                ctx.check(isinstance(pl, Inst), w + ": returns a plan", repr(pl), loc)
                if isinstance(pl, Inst): ctx.check(keyof(pl.at.get("plan")) == keyof(a[n - 1]) , w + ": the plan holds the handle that was created", repr(pl.at), loc)
                ctx.check(True in err, w + ": a failed creation is reported", "the error code is not tested", loc)
            else: ctx.check(False in err, w + ": accepted", "raises %s" % out[1], loc)
    ctx.check(good > 0, nmx + ": succeeds", "", loc)
    def bad(py):
        f, a, i, o, c = plan_inst(py, r2c); a[0] = 77; return py.call(f, a)
    for py, out in runpy(tree, bad): ctx.check(out[0] == "raise", nmx + ": invalid back ends are rejected", str(out), loc)
    if r2c:
        for d in (-1, 3):
            def bad(py):
                f, a, i, o, c = plan_inst(py, r2c); a[3] = d; return py.call(f, a)
            for py, out in runpy(tree, bad): ctx.check(out[0] == "raise", nmx + ": invalid axes are rejected", str(out), loc)
        for d in (0, 1, 2):
            def okb(py):
                f, a, i, o, c = plan_inst(py, r2c); a[3] = d; return py.call(f, a)
            for py, out in runpy(tree, okb):
                cr = [x for x in ccalls(py) if x[0] == cn]
                ctx.check(len(cr) == 1 and cr[0][1][7] == d, nmx + ": axis %d" % d, str(out), loc)
LET = {"float32": "s", "float64": "d", "complex64": "c", "complex128": "z"}
def methods(ctx, tree, meth, r2c):
    fwd = meth.startswith("forward"); buf = meth.endswith("buffered"); loc = (path(PYF), 0); n = 0
    SC = macros("Heffte_SCALE_")
    for a in DT:
        for b in DT:
            for wdt in (DT if buf else (None,)):
                ok = fwd and (LET[a] + LET[b]) in ("sc", "cc", "dz", "zz") or not fwd and (LET[a] + LET[b]) in ("cs", "cc", "zd", "zz")
                if r2c and LET[a] + LET[b] in ("cc", "zz"): ok = False
                cx = "complex64" if a in ("float32", "complex64") else "complex128"
                if buf and wdt != cx: ok = False
                if buf and wdt != cx and (wdt == a or wdt == b) and False: continue
                for sc in (("default",) + tuple(sorted(SC.values())) if ok else (0,)):
                    n += one(ctx, tree, meth, fwd, buf, r2c, a, b, wdt, sc, ok, loc)
    def bad(py): return tcall(py, meth, r2c, "float32", "complex64", "complex64" if buf else None, 5, fwd)
    for py, out in runpy(tree, bad): ctx.check(out[0] == "raise" or not [x for x in ccalls(py) if x[0].startswith(("heffte_forward", "heffte_backward"))], "Python %s: invalid scaling is rejected" % meth, str(out), loc)
def arrays(py, a, b, w):
    r = []
    for nme, d in (("in_array", a), ("out_array", b), ("work_array", w)):
        if d is None: r.append(None); continue
        s = S("n", nme); py.sat(s)["dtype"] = np_(d); r.append(s)
    return r
def tcall(py, meth, r2c, a, b, w, sc, fwd):
    f, ar, i, o, c = plan_inst(py, r2c)
    py.facts[("created",)] = True
    n0 = py.taken[:]
    pl = py.call(f, ar)
    py.calls = []
    x, y, z = arrays(py, a, b, w)
    m = py.getattr(pl, meth)
    if not isinstance(m, pyabs.Bound): raise AnchorMissing("method %s in %s" % (meth, PYF))
    py.pl = pl
    return py.call(m, [x, y] + ([z] if w else []) + ([] if sc == "default" else [sc]))
def one(ctx, tree, meth, fwd, buf, r2c, a, b, wdt, sc, ok, loc):
    w = "Python %s on a %s plan, %s -> %s%s%s" % (meth, "real-to-complex" if r2c else "complex", a, b, ", work space " + wdt if wdt and not ok else "", "" if sc in ("default", 0) else ", scaling %s" % sc)
    name = "heffte_%s_%s2%s%s" % ("forward" if fwd else "backward", LET[a], LET[b], "_buffered" if buf else "")
    ran = 0; calls = 0
    for py, out in runpy(tree, lambda py: tcall(py, meth, r2c, a, b, wdt, sc, fwd)):
        lits = py.taken
        if out[0] == "raise" and not hasattr(py, "pl"): continue     # the plan was not created
        x, y, z = S("n", "in_array"), S("n", "out_array"), S("n", "work_array")
        asked = {k: v for k, v in lits}
        def size_fact(arr, box):
            """truth of size(arr) == size of the box on this path"""
            for k, v in asked.items():
                if k[0] == "eq" and "heffte_size_%s" % box in repr(k) and repr(arr) + "." in repr(k): return v
            return None
        bi, bo = ("inbox", "outbox") if fwd else ("outbox", "inbox")
        fi, fo = size_fact(x, bi), size_fact(y, bo)
        wf = None
        for k, v in asked.items():
            if k[0] == "lt" and "heffte_size_workspace" in repr(k):
                if repr(k[1]).startswith("work_array"): wf = not v
                elif v is False: wf = True if wf is None else wf
                elif v is True: wf = True
        tr = [c for c in ccalls(py) if c[0].startswith(("heffte_forward", "heffte_backward"))]
        if ok:
            valid = fi is not False and fo is not False and (not buf or wf is not False)
            cross = [k for k, v in asked.items() if v is False and k[0] == "eq" and "heffte_size_" in repr(k) and not ((repr(x) + "." in repr(k) and "size_" + bi in repr(k)) or (repr(y) + "." in repr(k) and "size_" + bo in repr(k)))]
            if out[0] == "raise" and valid:
                ctx.check(False, w + ": arrays of the right sizes are accepted", "raises %s%s" % (out[1], ", comparing %s" % cross[0][1:] if cross else ""), loc); continue
            if out[0] == "value" and fi is True and fo is True and (not buf or wf is True):
                ran += 1
                if not ctx.check(len(tr) == 1 and tr[0][0] == name, w + ": calls %s once" % name, "calls %s" % [c[0] for c in tr], (path(PYF), tr[0][2] if tr else 0)): continue
                ar = tr[0][1]; want = [x, y] + ([z] if buf else [])
                ctx.check(len(ar) == len(want) + 2 and keyof(ar[0]) == keyof(py.pl.at.get("plan")), w + ": the handle of the plan", str(ar[:1]), (path(PYF), tr[0][2]))
                roles = [root(v) for v in ar[1:-1]]
                ctx.check(roles == [repr(v) for v in want], w + ": arrays keep their roles", str(roles), (path(PYF), tr[0][2]))
                ctx.check(ar[-1] == (0 if sc == "default" else sc), w + ": scaling" + (" (default none)" if sc == "default" else ""), str(ar[-1]), (path(PYF), tr[0][2]))
            elif out[0] == "value" and tr: ctx.check(False, w + ": arrays of other sizes are rejected", "runs with %s" % {repr(k): v for k, v in asked.items() if "size" in repr(k)}, loc)
        else: ctx.check(not tr, w + ": rejected", "calls %s" % [c[0] for c in tr], (path(PYF), tr[0][2] if tr else 0)); calls += 1
    if ok: ctx.check(ran > 0, w + ": runs", "no path runs the transform", loc)
    return 1
def root(v):
    r = repr(v); f = [n for n in ("in_array", "out_array", "work_array") if n in r]
    return f[0] if len(f) == 1 else r
def others(ctx, tree):
    loc = (path(PYF), 0)
    for q in ("size_inbox", "size_outbox", "size_workspace"):
        def body(py):
            f, ar, i, o, c = plan_inst(py, False); pl = py.call(f, ar); py.calls = []; py.pl = pl
            m = py.getattr(pl, q)
            if not isinstance(m, pyabs.Bound): raise AnchorMissing("method %s in %s" % (q, PYF))
            return py.call(m, [])
        for py, out in runpy(tree, body):
            if not hasattr(py, "pl"): continue
            cs = ccalls(py)
            ctx.check(out[0] == "value" and len(cs) == 1 and cs[0][0] == "heffte_" + q and keyof(cs[0][1][0]) == keyof(py.pl.at["plan"]) and isinstance(out[1], S) and repr(out[1]).startswith("call(libheffte.heffte_" + q), "Python %s: value of the plan" % q, "%s from %s" % (out, [c[0] for c in cs]), loc)
    # destruction
    def body(py):
        f, ar, i, o, c = plan_inst(py, False)
        made = []
        cls = pyclass(py, "heffte_fft_plan")
        try: pl = py.call(f, ar); ok = True
        except PyRaise: ok = False; pl = None
        py.created = ok
        if pl is None: return None
        py.calls = []; m = py.getattr(pl, "__del__")
        if isinstance(m, pyabs.Bound): py.call(m, [])
        py.pl = pl
        return None
    some = 0
    for py, out in runpy(tree, body):
        if not py.created: continue
        de = [c for c in ccalls(py) if c[0] == "heffte_plan_destroy"]
        nulls = [v for k, v in py.taken if k[0] == "true" or k[0] == "eq" and "None" in repr(k)]
        some += len(de) == 1
        ctx.check(len(de) <= 1 and all(keyof(c[1][0]) == keyof(py.pl.at["plan"]) for c in de), "Python: a plan is destroyed once", str(de), loc)
        if not de: ctx.check(bool(nulls), "Python: a created plan is destroyed", "", loc)
        else: ctx.check(bool(nulls), "Python: a plan that was not created is not destroyed", "destroyed without testing the handle", (path(PYF), de[0][2]))
    ctx.check(some > 0, "Python: plans are destroyed", "", loc)
    # boxes
    def body(py):
        b = py.call(pyclass(py, "box3d"), [S("n", "lo"), S("n", "hi")]); py.b = b; py.c0 = list(py.calls)
        return None
    for py, out in runpy(tree, body):
        if out[0] == "raise": continue
        for k, s in (("low", "lo"), ("high", "hi")):
            v = py.b.at.get(k); ctx.check(s in repr(v) and "int32" in repr([kk for f, a, kk, l in py.calls if a and keyof(a[0]) == S("n", s)]), "Python box3d: %s is the argument, as 32-bit integers" % k, repr(v), loc)
        v = repr(py.b.at.get("order")); ctx.check(re.search(r"0, 1, 2", v) is not None or "corder" in v, "Python box3d: default order 0, 1, 2", v, loc)
        break
# ------------------------------------------------------------------ Fortran
FT = {"real(c_float)": "float*", "real(c_double)": "double*", "complex(c_float_complex)": "std::complex<float>*", "complex(c_double_complex)": "std::complex<double>*", "integer(c_int)": "int", "logical": "bool", "integer": "int", "integer(scale)": "int", "integer(kind=c_int)": "int"}
_cxx = {}
def wrapper(be):
    """C++ side: wrapper name -> (kind, class, member, [(mode, wrapper parameter)], [C++ types], result used)"""
    p = unit("fortran/generated/heffte_%sFORTRAN_wrap.cxx" % be, "f_" + be)
    out = {}; machines = []
    def hk(m, fn, this, a, n):
        m.effect("use", cls=fn["cls"], fn=fn["n"], args=m.snap(a, fn), pt=[x["t"] for x in fn["params"]], this=this)
        y = m.ty(fn["ret"])
        return UNDEF if y["k"] == "void" else P(T("ret", fn["n"]))
    def ck(m, fn, this, a, n):
        m.effect("use", cls=fn["cls"], fn="<new>", args=m.snap(a, fn), pt=[x["t"] for x in fn["params"]], this=None)
        return Obj(fn["cls"], {}, T("made"))
    h = {}
    for c in ("heffte::fft3d", "heffte::fft3d_r2c"):
        for x in ("forward", "backward", "size_inbox", "size_outbox", "size_workspace", "size_comm_buffers", "get_scale_factor"): h[c + "::" + x] = hk
        h[c + "::" + c.split("::")[1]] = ck
    for f in p.fns.values():
        if not f["q"].startswith("_wrap_") or not f.get("body") or f["q"].endswith("op_assign__") or f["q"] == "_wrap_get_serr": continue
        m = machine(p, h); m.distinct.add(T("fld", T("sym", "farg1"), "cptr"))
        r = call(m, f, {}); machines.append(m)
        es = [e for e in flatten(m.rec) if e.g is not FALSE]
        comm = {}
        for e in es:
            if e.e.kind == "call" and e.e.d["q"] == "MPI_Comm_f2c": comm["MPI_Comm_f2c"] = farg(e.e.d["args"][0])
        out[f["q"]] = (f, es, r, comm, p)
    return out, machines
def farg(v):
    t = tx(v) if not isinstance(v, Ptr) else repr(v)
    k = set(re.findall(r"farg(\d+)", t))
    if len(k) != 1: return None
    return ("ptr" if isinstance(v, Ptr) else "val", int(k.pop()))
def resolve(pr, x, env, mod, seen=()):
    x = x.strip()
    if x in seen: return ("?", x)
    if x in pr.args and x not in env: return ("val", x)
    if x in env: return resolve(pr, env[x], env, mod, seen + (x,))
    m = re.match(r"c_loc\((\w+)(?:\(1\))?\)$", x)
    if m:
        r = resolve(pr, m.group(1), env, mod, seen); return ("ptr", r[1])
    m = re.match(r"int\((\w+)(?:, ?(?:kind ?= ?)?c_int)?\)$", x)
    if m: return resolve(pr, m.group(1), env, mod, seen)
    m = re.match(r"(\w+)%swigdata$", x)
    if m: return ("self", m.group(1))
    return ("?", x)
def body_call(pr, mod):
    """(interface procedure called, resolved arguments) of a wrapper body; every use of a C procedure on all statements"""
    env = {}; calls = []
    for ln, s in pr.stmts:
        m = re.match(r"call (\w+) ?\((.*)\)$", s)
        if m and m.group(1) == "swigtm_fin_bool":
            a = f90.split(m.group(2)); env[a[1]] = a[0]; continue
        if m and m.group(1) in mod.ifaces: calls.append((m.group(1), [resolve(pr, a, dict(env), mod) for a in f90.split(m.group(2))], None, ln)); continue
        m = re.match(r"(\w+(?:%\w+)?) ?= ?(\w+) ?\((.*)\)$", s)
        if m and m.group(2) in mod.ifaces: calls.append((m.group(2), [resolve(pr, a, dict(env), mod) for a in f90.split(m.group(3))], m.group(1), ln)); env[m.group(1)] = "<result>"; continue
        m = re.match(r"(\w+(?:%\w+)?) ?= ?(.*)$", s)
        if m: env[m.group(1)] = m.group(2)
    return calls, env
def fortran(ctx, be, compiled):
    ff = "fortran/generated/heffte_%s.f90" % be; text = read(ff); mod = f90.Module(text); loc0 = path(ff)
    base = be if compiled else "fftw"
    if base not in _cxx: _cxx[base] = wrapper(base)
    cxx, ms = _cxx[base]
    for m in ms: ctx.absorb(m)
    def rename(q): return q if compiled else q.replace("_%s" % be, "_fftw")
    SC = p20.enum_consts(unit("fortran/generated/heffte_%sFORTRAN_wrap.cxx" % base, "f_" + base), "heffte::scale")
    gl = {g["q"]: g for g in unit("fortran/generated/heffte_%sFORTRAN_wrap.cxx" % base, "f_" + base).globals.values()}
    for k, v in SC.items():
        c = mod.consts.get("scale_%s_%s" % (be, k)); g = gl.get(rename(c)) if c else None
        ctx.check(g is not None and isinstance(g.get("init"), dict) and g["init"].get("v") == v, "Fortran %s: scale_%s_%s is scale::%s" % (be, be, k, k), "bound to %s = %s" % (c, g and g.get("init")), (loc0, 0))
    for cls, ty, combos in (("heffte::fft3d", "heffte_fft3d_%s" % be, ("sc", "cc", "dz", "zz")), ("heffte::fft3d_r2c", "heffte_fft3d_r2c_%s" % be, ("sc", "dz"))):
        if ty not in mod.types: raise AnchorMissing("type %s in %s" % (ty, ff))
        t = mod.types[ty]
        members = [(k, v) for k, v in t["proc"].items() if k in ("size_inbox", "size_outbox", "size_workspace", "size_comm_buffers", "get_scale_factor")]
        have = {"forward": set(), "backward": set()}
        for g in ("forward", "backward"):
            if g not in t["gen"]: raise AnchorMissing("generic %s of %s" % (g, ty))
            members += [(g, t["proc"].get(x, x)) for x in t["gen"][g]]
        members += [("<new>", x) for x in mod.generic.get(ty, [])]
        news = set()
        for name, pn in members:
            pr = mod.procs.get(pn)
            if pr is None: raise AnchorMissing("%s in %s" % (pn, ff))
            loc = (loc0, pr.line); w = "Fortran %s %s (%s)" % (ty, name, pn)
            calls, env = body_call(pr, mod)
            if not ctx.check(len(calls) == 1, w + ": one C++ call", str([c[0] for c in calls]), loc): continue
            ifn, args, lhs, ln = calls[0]; itf = mod.ifaces[ifn]
            wq = rename(itf.bind or "")
            if not ctx.check(wq in cxx, w + ": bound to a wrapper of the library", str(itf.bind), loc): continue
            f, es, ret, comm, p = cxx[wq]
            us = [e for e in es if e.e.kind == "use"]
            if not ctx.check(len(us) == 1, w + ": the wrapper calls one member", str([e.e.d["fn"] for e in us]), (f["file"], f["line"])): continue
            d = us[0].e.d
            rec = p.recs[d["cls"]]
            ctx.check(rec["q"].split("<")[0] == cls and rec["ta"][0].endswith("::" + base), w + ": class of the object", "%s<%s>" % (rec["q"], rec["ta"][0]), (f["file"], f["line"]))
            ctx.check(d["fn"] == name, w + ": member", d["fn"], (f["file"], f["line"]))
            dum = [x for x in pr.args if x != "self"]
            # interface: kinds of the wrapper parameters
            bad = []
            for i, x in enumerate(itf.args):
                dec = itf.decl.get(x, []); byval = "value" in dec; ct = p.types[f["params"][i]["t"]]["s"] if i < len(f["params"]) else "?"
                if byval != ("const" not in ct and "SwigClassWrapper" not in ct and ct.endswith("*") ) : bad.append("%s %s against %s" % (x, dec, ct))
            ctx.check(not bad and len(itf.args) == len(f["params"]), w + ": the interface has the wrapper's parameters", str(bad[:2]), (loc0, itf.line))
            # positions
            got = []
            for v in d["args"]:
                fa = farg(v)
                if fa is None and "MPI_Comm_f2c" in repr(v): fa = comm.get("MPI_Comm_f2c")
                if fa is None or fa[1] - 1 >= len(args): got.append(None); continue
                got.append(args[fa[1] - 1])
            names = [x[1] if x else None for x in got]
            while len(names) > len(dum) and names[-1] is None:          # parameters left to their C++ defaults
                i = len(names) - 1; y = p.types[d["pt"][i]]; v = d["args"][i]; names.pop()
                if y["k"] == "enum": ctx.check(is_zero(v), w + ": the scaling that is not given is none", tx(v), (f["file"], f["line"]))
                else: ctx.check("farg" not in repr(v), w + ": a parameter that is not given keeps its default", repr(v)[:80], (f["file"], f["line"]))
            ctx.check(names == dum, w + ": arguments in the order of the C++ member", "%s becomes %s" % (dum, names), loc)
            if name != "<new>":
                th = d["this"]; ctx.check(farg(P(0)) is None and "farg1" in repr(th) and args and args[0] == ("self", "self"), w + ": on its own object", repr(th), loc)
            # types
            tt = []
            for x, tc in zip(dum, d["pt"]):
                fd = pr.decl.get(x, ["?"])[0]; y = p.types[tc]; ct = y["s"].replace("const ", "").replace(" ", "") if y["k"] != "ptr" else p.types[y["el"]]["s"].replace("const ", "").replace(" ", "") + "*"
                c = "int" if y["k"] == "enum" or x == "comm" else ct
                want = FT.get(fd)
                if want is None and y["k"] == "enum" and fd.startswith("integer"): want = "int"
                if want is None or want.replace(" ", "") != c: tt.append("%s: %s against %s" % (x, fd, ct))
            ctx.check(not tt, w + ": argument types", str(tt[:2]), loc)
            if name in have:
                arr = [pr.decl[x][0] for x in dum if "dimension(*)" in pr.decl.get(x, [])]
                L = {"real(c_float)": "s", "real(c_double)": "d", "complex(c_float_complex)": "c", "complex(c_double_complex)": "z"}
                have[name].add(("".join(L.get(x, "?") for x in arr[:2]), len(arr), "batch_size" in dum or pr.decl.get(dum[0], [""])[0] == "integer(c_int)", any("scale" in pr.decl[x][0] for x in dum)))
            elif name == "<new>": news.add(len(dum)); ctx.check(env.get("self%swigdata") is not None and lhs is not None and resolve_res(env, env["self%swigdata"], lhs), w + ": the object is stored", str(env.get("self%swigdata")), loc)
            else:
                ctx.check(lhs is not None and resolve_res(env, env.get(pr.result or "", ""), lhs), w + ": the value is returned", str(env.get(pr.result or "")), loc)
                rv = farg(ret) if not isinstance(ret, Undef) else None
                ctx.check(not isinstance(ret, Undef) and "ret(%s)" % name in tx(ret).replace("'", ""), w + ": the wrapper returns the value", tx(ret), (f["file"], f["line"]))
        for g in have:
            cb = combos if g == "forward" else tuple(x[::-1] for x in combos)
            want = {(c, n, b, s) for c in cb for n in (2, 3) for b in (False, True) for s in (False, True)}
            ctx.check(have[g] == want, "Fortran %s %s: every combination of types, batch, work space and scaling" % (ty, g), "missing %s, unexpected %s" % (sorted(want - have[g])[:3], sorted(have[g] - want)[:3]), (loc0, 0))
        ctx.check(len(news) == 3, "Fortran %s: three constructors" % ty, str(news), (loc0, 0))
        for q in ("size_inbox", "size_outbox", "size_workspace", "size_comm_buffers", "get_scale_factor"): ctx.check(q in t["proc"], "Fortran %s: %s exists" % (ty, q), "", (loc0, 0))
        # release
        rp = mod.procs.get(t["proc"].get("release", ""))
        if rp is None: raise AnchorMissing("release of " + ty)
        calls, env = body_call(rp, mod); w = "Fortran %s release" % ty
        if ctx.check(len(calls) == 1 and calls[0][1] == [("self", "self")], w + ": releases its own object", str(calls), (loc0, rp.line)):
            q = rename(mod.ifaces[calls[0][0]].bind)
            de = [e for e in cxx[q][1] if e.e.kind == "delete"] if q in cxx else []
            ctx.check(len(de) == 1 and de[0].e.d["rec"] is not None and cxx[q][4].recs[de[0].e.d["rec"]]["q"].split("<")[0] == cls, w + ": deletes an object of its class once", str(q), (loc0, rp.line))
            ctx.check(any("btest" in s and "own" in s for _, s in rp.stmts) and any("c_null_ptr" in s for _, s in rp.stmts), w + ": only when it owns it, and only once", "", (loc0, rp.line))
def is_zero(v):
    try: return P(v).is_const and P(v).const == 0
    except Exception: return False
def resolve_res(env, v, lhs, d=0):
    return v is not None and (v == lhs or v == "<result>" or (d < 5 and v in env and resolve_res(env, env[v], lhs, d + 1)))
def run(ctx):
    ctx.rules = ["Python: constants, structure layouts and argument types equal those of the C header; every method calls the C function of its direction, array types and buffering with its arrays in their roles; other types, sizes, scalings and plan kinds are rejected; default options are those of the library; a plan is destroyed once, and only if created",
                 "Fortran: each specific of forward/backward/constructors/queries reaches the C++ member of the same name and class with the arguments in the same order and of the matching types; all combinations exist; scaling constants equal scale"]
    ctx.assumptions = ["numpy, ctypes and mpi4py behave as documented", "generated modules are used as committed (SWIG is not run)"]
    tree = ast.parse(read(PYF)); its = []
    def consts(ctx):
        py = pyconst(ctx, tree); pydecl(ctx, py)
    its.append(consts)
    for r in (0, 1):
        its.append(lambda ctx, r=r: factory(ctx, tree, r))
        for meth in ("forward", "forward_buffered", "backward", "backward_buffered"): its.append(lambda ctx, r=r, me=meth: methods(ctx, tree, me, r))
    its.append(lambda ctx: others(ctx, tree))
    for be in ("stock", "fftw", "mkl"): its.append(lambda ctx, be=be: fortran(ctx, be, True))
    def gpu(ctx):
        for be in ("cufft", "rocfft", "onemkl"): fortran(ctx, be, False)
    its.append(gpu)
    try: ctx.parallel(its, lambda ctx, it: it(ctx))
    except Unsupported as e: raise AnchorMissing("Python construct: %s" % e)
