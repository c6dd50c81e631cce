"""P24: failures reported by the vendor FFT libraries are turned into exceptions."""
from execs import *
TITLE = "Errors reported by vendor libraries are not lost"
TECHNIQUE = "fault enumeration over the symbolic execution of every local transform: each vendor call in turn reports a failure; path analysis of the exceptions that follow"
LEVEL = "proof"
NOTE = "back ends compiled here with a vendor library: FFTW (null plans) and MKL (non-zero statuses); FFTW execution reports no status"
STAT = re.compile(r"Dfti(CreateDescriptor\w*|SetValue|CommitDescriptor|ComputeForward|ComputeBackward)$")
PLAN = re.compile(r"fftwf?_(plan_\w+)$")
class Calls:
    """vendor calls of one run, by source location; the chosen one fails"""
    def __init__(s, fail, sign=1): s.fail = fail; s.sign = sign; s.log = []
    def site(s, m, fn, n):
        k = (fn["q"], (m.loc[0], n["l"] if isinstance(n, dict) and n.get("l") else m.loc[1]))
        if k not in s.log: s.log.append(k)
        m.effect("vendor", q=fn["q"], index=k); return k == s.fail
def hooks(p, ex, calls):
    """the usual models, with failure of the chosen call"""
    H = {}
    def wrap(q, null):
        def h(m, fn, this, a, n):
            bad = calls.site(m, fn, n)
            base = ex[0].hk0[q]
            r = base(m, fn, this, a, n)
            if not bad: return r
            return Ptr(NULL.base) if null else P(T("sym", "status"))
        return h
    for f in p.fns.values():
        if STAT.match(f["q"]): H[f["q"]] = wrap(f["q"], False)
        elif PLAN.match(f["q"]): H[f["q"]] = wrap(f["q"], True)
    return H
class Ex(Exec):
    """execution with one failing vendor call"""
    def __init__(s, p, c, order, dims, calls):
        box = [s]; s.hk0 = {}
        for f in p.fns.values():
            q = f["q"]
            if FFTW.match(q): s.hk0[q] = s.h_fftw_plan
            elif re.match(r"DftiCreateDescriptor", q): s.hk0[q] = s.h_dfti_create
            elif q == "DftiSetValue": s.hk0[q] = s.h_dfti_set
            elif q == "DftiCommitDescriptor": s.hk0[q] = s.h_dfti_commit
            elif q in ("DftiComputeForward", "DftiComputeBackward"): s.hk0[q] = s.h_dfti_exec
            elif PLAN.match(q): s.hk0[q] = lambda m, fn, this, a, n: Ptr(fresh("plan"))
        Exec.__init__(s, p, c, order, dims, hooks=hooks(p, box, calls))
        if calls.sign: s.m.facts.append(P(T("sym", "status")) - 1 if calls.sign > 0 else -P(T("sym", "status")) - 1)
def callsites(p):
    """{(file, line)} of the vendor calls in the library's code"""
    out = {}
    def walk(n, f):
        if isinstance(n, dict):
            fn = n.get("f")
            if n.get("k") == "call" and fn in p.fns and (STAT.match(p.fns[fn]["q"]) or PLAN.match(p.fns[fn]["q"])):
                l = n.get("l"); out.setdefault((f["file"], l if isinstance(l, int) else (l or [0])[0]), (p.fns[fn]["q"], f["q"]))
            for v in n.values(): walk(v, f)
        elif isinstance(n, list):
            for v in n: walk(v, f)
    for f in p.fns.values():
        if f.get("body") is not None: walk(f, f)
    return out

def show_site(l): return "%s:%d" % (os.path.basename(l[0]), l[1]) if l else "?"
def one(ctx, p, cls, ci, D):
    c = executor_ctors(p)[cls][ci]; nm = cname(p, cls); least = 2 if "cos1" in nm else 1
    def make(fail, sign=1):
        cl = Calls(fail, sign); x = Ex(p, c, (0, 1, 2), D, cl)
        x.m.facts += [z - least for z in x.size]
        return x, cl
    x, cl = make(None)
    if x.m.st.dead or any(e.e.kind == "throw" and e.g is TRUE for e in x.built): return
    seen = set(); meths = x.method("forward") + x.method("backward")
    for f in meths:
        ty = [x.m.ty(q["t"])["s"].replace("std::", "") for q in f["params"]]
        t = "%s(dims %s) %s(%s)" % (nm, ",".join(map(str, D)) or "all", f["n"], ", ".join(ty)); loc = (f["file"], f["line"])
        x, cl = make(None); effs, bs, ret = x.run(f)
        effs = [e for e in x.built + effs if e.g is not FALSE]
        ctx.absorb(x.m)
        calls = [e for e in effs if e.e.kind == "vendor"]; sites = cl.log
        if not calls: continue
        seen |= {e.e.d["index"][1] for e in calls}
        th = [e for e in effs if e.e.kind == "throw"]
        ctx.check(not th, t + ": no exception when every vendor call succeeds", "throws %s" % [e.e.d.get("type") for e in th][:1], th[0].e.loc if th else loc)
        for k in sites:
            who = k[0]
            if not (STAT.match(who) or PLAN.match(who)): continue
            for sign in ((1, -1) if STAT.match(who) else (1,)):
                y, cy = make(k, sign); ef, b2, r2 = y.run(f); ef = [e for e in y.built + ef if e.g is not FALSE]
                v = [i for i, e in enumerate(ef) if e.e.kind == "vendor" and e.e.d["index"] == k]
                if not ctx.check(len(v) >= 1, t + ": %s is called" % who, "", k[1]): continue
                for vi in v: verdict(ctx, ef, vi, who, y, sign, t, loc)
            if who.startswith("DftiCompute"):
                y, cy = make(k, 0); ef, b2, r2 = y.run(f); ef = [e for e in y.built + ef if e.g is not FALSE]
                for vi in [i for i, e in enumerate(ef) if e.e.kind == "vendor" and e.e.d["index"] == k]:
                    e = ef[vi]; cov = FALSE
                    for q in ef[vi:]:
                        if q.e.kind == "throw" and q.loops == e.loops: cov = bor(cov, q.g)
                    ctx.check(reported(band(e.g, bnot(cov))), t + ": the status of every %s is tested" % who, "an exception only under %s" % show(cov)[:120], k_loc(e) or loc)
    ctx.notes += ["@%s:%d" % (os.path.basename(l[0]), l[1]) for l in seen if l]
def atoms(b):
    out = {}; todo = [b]; seen = set()
    while todo:
        x = todo.pop()
        if x.v is None or x.id in seen: continue
        seen.add(x.id); out[x.v] = 1; todo += [x.hi, x.lo]
    return list(out)
def restrict(b, m):
    if b.v is None: return b
    if b.v in m: return restrict(b.hi if m[b.v] else b.lo, m)
    return bite(batom(b.v), restrict(b.hi, m), restrict(b.lo, m))
def reported(rest):
    """no case is left without an exception for some non-zero status"""
    st = [a for a in atoms(rest) if "status" in repr(a)]
    for vals in itertools.product((False, True), repeat=len(st)):
        if restrict(rest, dict(zip(st, vals))) is FALSE: return True
    return rest is FALSE
def k_loc(e): return e.e.d["index"][1]
def verdict(ctx, ef, vi, who, y, sign, t, loc):
    e = ef[vi]
    # the exception that follows, under the same conditions, before the data is used
    th = [i for i, q in enumerate(ef) if i > vi and q.e.kind == "throw" and q.g is e.g]
    own = 1 if who.startswith("DftiCompute") else 0         # the failing call itself
    ok = bool(th) and len([q for q in ef[vi + 1:th[0]] if q.e.kind == "xform"]) <= own
    if ok and any(q.e.kind == "caught" and not any(z.e.kind == "throw" for z in ef[j + 1:]) for j, q in enumerate(ef) if j > th[0]): ctx.check(False, t + ": failure of %s leaves the library" % who, "the exception is caught", ef[th[0]].e.loc); return
    ctx.check(ok, t + ": failure of %s%s becomes an exception" % (who, " (negative status)" if sign < 0 else ""), ("the status is ignored" if STAT.match(who) else "a null plan is used") if not th else "the transform is executed first", k_loc(e) or loc)
def run(ctx):
    ctx.rules = ["for every local transform, method and vendor call k on its path: if call k alone fails (MKL: status above or below zero; FFTW: null plan), an exception is raised under the same conditions before any transform runs with the failed object; if none fails, no exception is raised", "every vendor call site of the library is reached by this enumeration"]
    ctx.assumptions = ["MKL reports failure by a non-zero status and FFTW by a null plan; FFTW execution functions report nothing", "failures while releasing plans are outside the property"]
    p = program("int"); its = []
    for cls, cs in executor_ctors(p).items():
        if not re.search("fftw|mkl", cname(p, cls)): continue
        for ci, c in enumerate(cs):
            nd = sum(1 for x in c["params"] if p.types[x["t"]]["k"] == "int")
            for d in ([(i,) for i in range(3)] if nd == 1 else list(itertools.permutations(range(3), 2)) if nd == 2 else [()]): its.append((cls, ci, d))
    if len(its) < 40: raise AnchorMissing("local transforms with a vendor library")
    ctx.parallel(its, lambda ctx, it: one(ctx, p, *it))
    seen = {x[1:] for x in ctx.notes if x.startswith("@")}; ctx.notes = [x for x in ctx.notes if not x.startswith("@")]
    sites = callsites(p)
    if len(sites) < 20: raise AnchorMissing("vendor call sites")
    own = {}
    for (fl, ln), (q, owner) in sorted(sites.items()): own.setdefault(owner, []).append((fl, ln, q, "%s:%d" % (os.path.basename(fl), ln) in seen))
    for owner, l in sorted(own.items()): ctx.check(any(x[3] for x in l), "vendor calls of %s are analysed" % owner, "%s is never reached from a local transform" % l[0][2], l[0][:2])
    ctx.notes.append("%d vendor call sites" % len(sites))
