"""P17: executing a transform changes nothing that later executions depend on."""
from execs import *
import re
import checks.p13 as lines
import checks.p14 as vendor
import planexec, planobj, reshape, pipeline
import dom, interp, stdmodel, itertools as _it
# names of one width, so that the order of terms does not depend on how many names were used before
for _m, _n in ((dom, "_fresh"), (dom, "_loopn"), (interp, "_cells"), (stdmodel, "_c")): setattr(_m, _n, _it.count(1000001))
TITLE = "Transforms are repeatable: execution does not change a plan's behaviour"
TECHNIQUE = "effect and frame analysis: symbolic abstract interpretation of executors, redistributions and transform calls; objects compared before and after, effects compared between executions on the resulting states (inductive over histories)"
LEVEL = "proof"
TRACE = ("heffte::event_log", "heffte::log_filename")
FRESH = re.compile(r"[$#@%!~][A-Za-z_]*\d*|\b[a-z_]+\d{2,}\b|(?<=cell\()\d+|(?<=heap\()\d+")
def canon_text(s):
    """fresh names numbered by first appearance"""
    m = {}
    return FRESH.sub(lambda x: m.setdefault(x.group(0), "#%d" % len(m)), s)
def val(v):
    if isinstance(v, (list, tuple)): return "(" + ", ".join(val(x) for x in v) + ")"
    if isinstance(v, dict): return "{" + ", ".join("%s: %s" % (k, val(x)) for k, x in sorted(v.items(), key=lambda q: str(q[0]))) + "}"
    return txt(v)
def globals_(m): return {b: val(v) for b, v in m.st.s.items() if b.op == "global"}
def changed_globals(ctx, m, g0, name, loc):
    bad = [show(P(b)) for b, v in globals_(m).items() if v != g0.get(b, v) or (b not in g0 and not v.startswith("gval") and "gval" in show(P(b)))]
    bad = [b for b in bad if not any(t in b for t in TRACE)]
    ctx.check(not bad, name + ": no static or global variable is modified", ", ".join(bad)[:200], loc)
def uses_static(effs):
    """effects that depend on the contents of a modifiable static or global variable"""
    out = []
    for e in effs:
        s = show(e.g) + val(e.e.d)
        for g in re.findall(r"gval\(([^()]*)\)|gval\.([\w:.]+)", s):
            n = g[0] or g[1]
            if not any(t in n for t in TRACE): out.append((n, e))
    return out
def trace_text(effs):
    """the operations in order; completed requests (checked by P04) are not told apart from null ones"""
    def d(e): return {k: v for k, v in e.e.d.items() if not (k == "pointees" and str(e.e.d.get("q", "")).startswith("MPI_Wait"))}
    return canon_text(" ;\n ".join(e.e.kind + " " + show(e.g) + val(d(e)) + val([(n, N) for n, N in e.loops]) for e in effs))
def executors(ctx, it):
    pr, cls, ci, D = it
    p = program(pr); c = executor_ctors(p)[cls][ci]; nm = cname(p, cls)
    x = Exec(p, c, (0, 1, 2), D, least=2 if "cos1" in nm else 1)
    if x.m.st.dead or any(e.e.kind == "throw" and e.g is TRUE for e in x.built): return
    name = "%s(dims %s)" % (nm, ",".join(map(str, D)) or "all")
    ms = x.method("forward") + x.method("backward")
    plan_fields = lambda o: {k for k, v in o.f.items() if re.search(r"unique_ptr|plan", x.m.ty(x.m.fields(o.rec)[k]["t"])["s"])} if isinstance(o, Obj) else set()
    o0 = x.obj; g0 = globals_(x.m)
    lazy = plan_fields(o0)
    first = {}; states = [o0]
    for rnd, seq in enumerate((ms, ms[::-1], ms)):
        for f in seq:
            ty = [x.m.ty(q["t"])["s"].replace("std::", "") for q in f["params"]]
            t = "%s %s(%s)" % (name, f["n"], ", ".join(ty)); loc = (f["file"], f["line"])
            before = x.obj
            effs, bases, ret = x.run(f)
            sig = []
            for e in effs:
                d = dict(e.e.d)
                if e.e.kind in ("plan", "new", "delete"): continue
                if e.e.kind == "xform":
                    cfg = tuple((show(g), None if pl is None else (pl.kind, pl.sign, pl.prec, tuple(tuple(map(show, q)) for q in pl.dims or ()), tuple(map(show, pl.batch or ())), pl.kinds and tuple(pl.kinds), show(pl.flags) if isinstance(pl.flags, Poly) else str(pl.flags))) for g, pl in lines.resolve(x, d["plan"]))
                    d.pop("plan", None); d["cfg"] = str(cfg)
                elif e.e.kind == "call" and "a" in d: continue
                sig.append(e.e.kind + " " + show(e.g) + val(d) + val([(n, N) for n, N in e.loops]))
            sig = canon_text(" ; ".join(s for s in sig if s.startswith(("xform", "write", "copybuf", "throw"))))
            after = x.obj
            diff = [k for k in after.f if val(after.f[k]) != val(before.f.get(k))]
            ctx.check(all(k in lazy for k in diff), t + ": only vendor plan handles of the object are written", "modified: " + ", ".join(k for k in diff if k not in lazy), loc)
            changed_globals(ctx, x.m, g0, t, loc)
            us = uses_static(effs)
            ctx.check(not us, t + ": nothing depends on a modifiable static variable", str([u[0] for u in us][:2]), us[0][1].e.loc if us else loc)
            if rnd == 0: first[f["id"]] = sig
            else:
                ctx.check(not diff, t + ": plans are created once, further executions write nothing in the object", "modified: " + ", ".join(diff), loc)
                ctx.check(sig == first[f["id"]], t + ": a repeated execution performs the same operations", where(first[f["id"]], sig, " ; "), loc)
    ctx.absorb(x.m)
def where(x, y, sep=" ;\n "):
    for i, j in zip(x.split(sep), y.split(sep)):
        if i != j:
            k = next((k for k in range(min(len(i), len(j))) if i[k] != j[k]), 0); k = max(0, k - 60)
            return ("...%s / ...%s" % (i[k:k + 200], j[k:k + 200]))
    return "numbers of effects differ"
SCRATCH = re.compile(r"vector<(float|double|MPI_Request|ompi_request_t \*|struct ompi_request_t \*)|MPI_Request|ompi_request")
def shapers(ctx, c):
    p = program("int")
    t = reshape.get_trace(p, c); name = reshape.cname(c)
    if t.null: return
    m = t.m; loc = (t.apply["file"], t.apply["line"])
    args = {0: P(t.batch), 1: Ptr(t.SRC, (), ZERO), 2: Ptr(t.DST, (), ZERO), 3: Ptr(t.WS, (), ZERO)}
    def once():
        m.rec = []; o0 = m.st.s[t.this.base]; g0 = globals_(m)
        call(m, t.apply, dict(args), this=t.this)
        effs = flatten(m.rec); m.rec = []
        o1 = m.st.s[t.this.base]
        rec = m.fields(o1.rec)
        diff = [k for k in o1.f if val(o1.f[k]) != val(o0.f.get(k))]
        for k in diff: ctx.check(SCRATCH.search(m.ty(rec[k]["t"])["s"]), "%s: execution modifies only handles of pending messages and scratch buffers" % name, "member %s is modified" % k, loc)
        changed_globals(ctx, m, g0, name, loc)
        us = uses_static(effs)
        ctx.check(not us, name + ": nothing depends on a modifiable static variable", str([u[0] for u in us][:2]), us[0][1].e.loc if us else loc)
        return trace_text(effs)
    a = trace_text(t.flat)
    b = once(); d = once()
    ctx.check(a == b, name + ": the second execution performs the same operations as the first", where(a, b), loc)
    ctx.check(b == d, name + ": every further execution performs the same operations", where(b, d), loc)
    ctx.absorb(m)
def calls_(ctx, it):
    ci, part = it
    p = program("int")
    c = planobj.ctors(p)[ci]
    b = planobj.built(p, c)
    m = b.m
    for f in planexec.methods(p):
        if f["cls"] != c["cls"] or f.get("static"): continue
        ty = [m.ty(q["t"])["s"].replace("std::", "") for q in f["params"]]
        name = "%s::%s(%s)" % (planobj.short(p, f), f["n"], ", ".join(ty)); loc = (f["file"], f["line"])
        o0 = val(m.st.s[b.this.base]); g0 = globals_(m)
        r1 = planobj.run_method(b, f)
        o1 = val(m.st.s[b.this.base])
        ctx.check(o0 == o1, name + ": the plan object is not modified", "members differ after the call", loc)
        changed_globals(ctx, m, g0, name, loc)
        us = uses_static(r1.effs)
        ctx.check(not us, name + ": nothing depends on a modifiable static variable", str([u[0] for u in us][:2]), us[0][1].e.loc if us else loc)
        for e in r1.effs:
            if e.e.kind in ("write", "copybuf"):
                ctx.check("plan." not in val(e.e.d.get("mem")), name + ": no memory of the plan is written", val(e.e.d.get("mem")), e.e.loc)
    ctx.absorb(m)
def pipelines(ctx, it):
    """the operations of the pipeline are a function of its arguments: no static variable is read or written"""
    key, part = it
    p = program("int"); f = pipeline.instances(p)[key]
    for i, sc in enumerate(pipeline.scenarios(key[0])):
        if i % 8 != part: continue
        r = pipeline.analyse(p, f, sc)
        effs = pipeline.flat_events(r); name = "%s pipeline of %s" % key
        changed_globals(ctx, r.m, {}, name, r.floc)
        us = uses_static(effs)
        ctx.check(not us, name + ": nothing depends on a modifiable static variable", str([u[0] for u in us][:2]), us[0][1].e.loc if us else r.floc)
        ctx.absorb(r.m)
def work(ctx, it):
    {"p": pipelines, "e": executors, "s": shapers, "c": calls_}[it[0]](ctx, it[1])
def run(ctx):
    ctx.rules = ["every executor method, in three orders on one object: the first execution writes only lazily created vendor plan handles, later executions write nothing in the object; a repeated execution performs the same operations (states reached: plans absent or present; closed under every method, hence for all histories)",
                 "every redistribution: two more executions on the state left by the first perform the same operations; only request handles and scratch buffers are written",
                 "every public transform call: the plan object and all static variables are unchanged (an operation is a function of the plan, the arguments and the data)",
                 "no effect depends on a modifiable static or global variable other than the trace log"]
    its = []
    p = program("int"); ex = executor_ctors(p)
    for cls, cs in ex.items():
        for ci, c in enumerate(cs):
            nd = sum(1 for x in c["params"] if p.types[x["t"]]["k"] == "int")
            for d in ([(i,) for i in range(3)] if nd == 1 else [(0, 1), (1, 2), (0, 2)] if nd == 2 else [()]): its.append(("e", ("int", cls, ci, d)))
    its += [("s", c) for c in reshape.configs(ctx.tier)]
    its += [("p", (k, i)) for k in sorted(pipeline.instances(p)) for i in range(8 if ctx.tier == "thorough" else 1)]
    cs = planobj.ctors(p); seen = set()
    for i, c in enumerate(cs):
        if c["cls"] in seen or planobj.delegates(c) : continue
        seen.add(c["cls"]); its.append(("c", (i, 0)))
    ctx.parallel(its, work)
