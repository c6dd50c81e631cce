"""P27: tracing adds log entries and nothing else; the log is complete."""
from harness import *
import extract, re
TITLE = "Tracing does not change behaviour and the log is complete"
TECHNIQUE = "comparison of the type-checked programs with and without tracing (function by function, trace objects erased) and effect analysis of the trace object, initialization and finalization by symbolic abstract interpretation"
LEVEL = "proof"
ON = extract.BASE_DEFS + ("Heffte_ENABLE_TRACING",)
def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
def rname(p, r):
    if r not in p.recs: return str(r)
    x = p.recs[r]
    return x.get("s") or x["q"] + str(x.get("ta"))
def key(p, f):
    anon = "operator()" in f["n"] or "(lambda" in f["q"]
    return (f["k"], f["q"], str(f.get("ta")) if not isinstance(f.get("ta"), int) else "", tuple(p.types[x["t"]]["s"] for x in f["params"]), rname(p, f["cls"]) if f.get("cls") and not anon else "",
            (f.get("file"), f["line"]) if anon else "")
def is_trace(p, t): return "add_trace" in p.types[t]["s"]
def drop(p, n):
    return isinstance(n, dict) and n.get("k") == "decl" and bool(n.get("vars")) and all(is_trace(p, v["t"]) for v in n["vars"])
class Found(Exception): pass
def canon(p, n, env, where):
    if isinstance(n, list): return [canon(p, x, env, where) for x in n if not drop(p, x)]
    if isinstance(n, dict):
        o = {}
        if n.get("l"): where[0] = n["l"]
        for k, v in n.items():
            if k in ("l", "el", "fld"): continue
            if k in ("t", "ft", "at", "dt", "base") and isinstance(v, int): v = p.types[v]["s"]
            elif k == "f" and isinstance(v, int): v = str(key(p, p.fns[v])) if v in p.fns else "?"
            elif k in ("rec", "cls") and isinstance(v, int): v = rname(p, v)
            elif k == "d" and isinstance(v, (int, str)): v = env.setdefault(v, len(env))
            else: v = canon(p, v, env, where)
            o[k] = v
        return o
    return n
def first_line(x, y, a, b):
    """source line of the first differing statement"""
    def go(u, v):
        if isinstance(u, dict) and isinstance(v, dict):
            for k in ("cs", "c", "s", "b", "th", "el", "vars", "a", "e", "init"):
                if k in u and k in v and isinstance(u[k], (list, dict)):
                    r = go(u[k], v[k])
                    if r: return r
        elif isinstance(u, list) and isinstance(v, list):
            for i in range(min(len(u), len(v))):
                r = go(u[i], v[i])
                if r: return r
            if len(u) != len(v):
                z = (u if len(u) > len(v) else v)[min(len(u), len(v))]
                return z.get("l") if isinstance(z, dict) else None
        return None
    return go(a, b)
def compare(ctx, a, b, unitname):
    A, B = ({key(p, f): f for f in p.fns.values() if f.get("body") is not None and f.get("ours")} for p in (a, b))
    if len(A) < 5: raise AnchorMissing("functions of " + unitname)
    trace_file = [f["file"] for f in a.fns.values() if f["q"].startswith("heffte::add_trace::")]
    for k, f in sorted(A.items(), key=str):
        loc = (f["file"], f["line"])
        if k not in B:
            ok = f["file"] in trace_file or "heffte::event" in f["q"] or "add_trace" in f["q"]
            ctx.check(ok, "%s: only trace functions exist with tracing only" % f["q"], "", loc, key=k[1]); continue
        if f["file"] in trace_file and ("add_trace" in f["q"] or f["q"].endswith("_tracing")): continue
        g = B[k]; w = [f["line"]]
        x = canon(a, {"b": f["body"], "i": f.get("inits")}, {}, w); y = canon(b, {"b": g["body"], "i": g.get("inits")}, {}, w)
        ln = first_line(x, y, f["body"], g["body"]) if x != y else None
        ctx.check(x == y, "%s(%s): the same program with and without tracing, apart from trace objects" % (f["q"], ", ".join(k[3])), "the bodies differ", (f["file"], ln or f["line"]))
        ctx.funcs.add(f["q"])
    for k, f in sorted(B.items(), key=str):
        if k not in A: ctx.check(f["file"] in trace_file, "%s: the function exists with tracing" % f["q"], "missing with tracing enabled", (f["file"], f["line"]), key=k[1])
def walk(n, up=()):
    if isinstance(n, dict):
        yield n, up
        for v in n.values(): yield from walk(v, up + (n,))
    elif isinstance(n, list):
        for v in n: yield from walk(v, up)
def scopes(ctx, p):
    """every trace object is a variable of a block: constructed once, destroyed at the end of the region, never copied"""
    tr = {r for r, x in p.recs.items() if normq(x["q"]) == "heffte::add_trace"}
    if not tr: raise AnchorMissing("heffte::add_trace")
    n = 0; seen = set()
    for f in p.fns.values():
        if f.get("body") is None or not f.get("ours") or f.get("cls") in tr: continue
        vars_ = set()
        for x, up in walk({"b": f["body"], "i": f.get("inits")}):
            if x.get("k") == "decl":
                for v in x.get("vars") or []:
                    y = p.types[v["t"]]
                    if y.get("rec") in tr or ("add_trace" in y["s"] and y["k"] == "rec"):
                        if (f["file"], v.get("l", x.get("l"))) in seen: pass
                        seen.add((f["file"], v.get("l", x.get("l")))); n += 1
                        ctx.check(not v.get("static"), "%s: a trace object lives for its region" % f["q"], "the variable %s is static" % v["n"], (f["file"], v.get("l", x.get("l", f["line"]))))
                        for z, _ in walk(v.get("init")): vars_.add(id(z))
        for x, up in walk({"b": f["body"], "i": f.get("inits")}):
            if x.get("k") in ("ctor", "construct", "cctor") or (isinstance(x.get("f"), int) and x["f"] in p.fns and p.fns[x["f"]].get("cls") in tr and p.fns[x["f"]]["k"] == "ctor"):
                fn = p.fns.get(x.get("f"))
                if fn is None or fn.get("cls") not in tr: continue
                loc = (f["file"], x.get("l", f["line"]))
                ctx.check(id(x) in vars_, "%s: a trace object is a named variable of the region" % f["q"], "a temporary: the entry has no duration", loc)
                cp = bool(fn["params"]) and "add_trace" in p.types[fn["params"][0]["t"]]["s"]
                ctx.check(not cp, "%s: trace objects are not copied" % f["q"], "a copy yields a second entry", loc)
    return n
def is_time(v): return isinstance(v, Poly) and re.fullmatch(r"res\(MPI_Wtime, [^()]*\)", show(v)) is not None
def the(p, q, k=None):
    fs = [f for f in p.fns.values() if f["q"] == q and f.get("body") is not None and (k is None or f["k"] == k)]
    if len(fs) != 1: raise AnchorMissing(q)
    return fs[0]
def effects(m): return [e for e in flatten(m.rec) if not (e.e.kind == "call" and e.e.d.get("q") == "MPI_Wtime")]
def objects(ctx, p):
    c = the(p, "heffte::add_trace::add_trace"); d = the(p, "heffte::add_trace::~add_trace", "dtor")
    loc = (c["file"], c["line"]); dloc = (d["file"], d["line"])
    def h_push(m, fn, this, a, n):
        m.effect("push", log=txt(m.addr(this)) if isinstance(this, (LV, MLV)) else txt(this), args=m.snap(a, fn)); return UNDEF
    m = machine(p, {"std::%s::%s" % (x, y): h_push for x in ("deque", "vector", "list") for y in ("push_back", "emplace_back")}); this = this_obj(m, c["cls"], "self")
    call(m, c, this=this)
    o = m.st.s[this.base]
    es = effects(m)
    ctx.check(not es, "add_trace: opening a region has no effect besides reading the clock", str([e.e.kind for e in es]), loc)
    names = [k for k, v in o.f.items() if isinstance(v, VStr) or "basic_string" in m.ty(m.fields(o.rec)[k]["t"])["s"]] if "VStr" in globals() else [k for k in o.f if "basic_string" in m.ty(m.fields(o.rec)[k]["t"])["s"]]
    times = [k for k, v in o.f.items() if is_time(v)]
    pn = c["params"][0]["n"]
    ctx.check(len(times) == 1, "add_trace: the start time is read when the region is opened", txt(o), loc)
    named = [k for k in names if txt(o.f[k]) == "<%s>" % pn]
    ctx.check(len(named) >= 1, "add_trace: the name of the region is kept", txt(o), loc)
    ctx.absorb(m)
    # the destructor, on an object in the state the constructor leaves it in
    n0 = txt(o.f[named[0]]) if named else None; t0 = o.f[times[0]] if times else None
    m.rec = []
    call(m, d, this=this)
    es = effects(m)
    push = [e for e in es if e.e.kind == "push"]
    other = [e for e in es if e not in push]
    ctx.check(len(push) == 1 and push[0].g is TRUE and not push[0].loops, "add_trace: closing a region appends exactly one entry", "%d entries" % len(push), dloc)
    ctx.check(not other, "add_trace: closing a region has no other effect", str([(e.e.kind, e.e.d.get("q")) for e in other]), dloc)
    order = entry = None
    if len(push) == 1:
        a = push[0].e.d["args"]
        ctx.check("heffte::event_log" in push[0].e.d["log"], "add_trace: the entry is appended to the event log", push[0].e.d["log"], dloc)
        v = a[0]
        if isinstance(v, (LV, MLV)): v = m.read(v)
        fs = list(v.f.values()) if isinstance(v, Obj) else list(a)
        if not isinstance(v, Obj):
            ev = [r for r in p.recs.values() if r["q"] == "heffte::event"]
            if not ev: raise AnchorMissing("heffte::event")
        ctx.check(len(fs) == 3 and txt(fs[0]) == n0, "add_trace: the entry carries the name of the region", txt(fs[0]) if fs else "", dloc)
        ctx.check(len(fs) == 3 and t0 is not None and fs[1] == t0, "add_trace: the entry carries the start time of the region", txt(fs[1]) if len(fs) > 1 else "", dloc)
        ctx.check(len(fs) == 3 and t0 is not None and isinstance(fs[2], Poly) and is_time(fs[2] + t0) and fs[2] + t0 != t0, "add_trace: the entry carries the time between opening and closing", txt(fs[2]) if len(fs) > 2 else "", dloc)
    ctx.absorb(m)
def logfile(ctx, p):
    i = the(p, "heffte::init_tracing"); z = the(p, "heffte::finalize_tracing")
    loc = (i["file"], i["line"])
    cleared = []
    LOG = T("global", "heffte::event_log")
    def reset(m, fn, this, a, n):
        tgt = this if isinstance(this, LV) else a[0] if a else None
        if isinstance(tgt, LV) and tgt.base is LOG:
            src = [x for x in a if not (isinstance(x, LV) and x.base is LOG)]
            v = m.read(src[0]) if src and isinstance(src[0], LV) else (src[0] if src else None)
            cleared.append(txt(v) if v is not None else "empty")
        return UNDEF
    m = machine(p, {"std::deque::operator=": reset, "std::deque::clear": reset, "std::vector::operator=": reset, "std::vector::clear": reset, "std::deque::swap": reset})
    call(m, i)
    es = [e for e in effects(m) if not (e.e.kind == "call" and e.e.d["q"] in ("MPI_Comm_rank",) or e.e.kind == "call" and re.search("clear|operator=|swap", e.e.d["q"]))]
    ctx.check(not es, "init_tracing: communicates nothing", str([(e.e.kind, e.e.d.get("q")) for e in es]), loc)
    raw = txt(m.st.s.get(LOG, "")) if LOG in m.st.s else ""
    ctx.check(bool(cleared) or "gval" not in raw and raw, "init_tracing: the event log starts empty", raw, loc)
    nm = txt(m.st.s.get(T("global", "heffte::log_filename"), ""))
    pn = i["params"][0]["n"]
    ctx.check(re.search(r"\b%s\b" % re.escape(pn), nm) and re.search(r"str\(to_string, out:MPI_Comm_rank", nm), "init_tracing: one log file per rank, named after the root and the rank", nm, loc)
    com = [e.e.d for e in flatten(m.rec) if e.e.kind == "call" and e.e.d["q"] == "MPI_Comm_rank"]
    ctx.check(com and "comm_world" in txt(com[0]["args"][0]), "init_tracing: the rank is the rank in the world", txt(com[0]["args"][0]) if com else "no rank", loc)
    ctx.absorb(m)
    m = machine(p); loc = (z["file"], z["line"])
    call(m, z)
    es = effects(m); N = "size(gval(heffte::event_log))"
    pr = [e for e in es if e.e.kind == "print"]
    other = [e for e in es if e.e.kind != "print"]
    ctx.check(not [e for e in other if "MPI" in str(e.e.d.get("q"))], "finalize_tracing: communicates nothing", str([e.e.d.get("q") for e in other]), loc)
    seen = {}
    streams = set()
    for e in pr:
        for x in e.e.d["args"]:
            s = txt(x)
            mo = re.fullmatch(r"<?gval\(heffte::event_log\)\[([^\[\]]*)\]\.(\w+)>?", s)
            if mo:
                full = len(e.loops) == 1 and txt(e.loops[0][1]) == N and mo.group(1) == txt(P(e.loops[0][0])) and e.g is TRUE
                ctx.check(full, "finalize_tracing: %s is written for every entry, in order" % mo.group(2), "written for [%s], %s times, if %s" % (mo.group(1), ", ".join(txt(c) for _, c in e.loops), show(e.g)), e.e.loc)
                seen[mo.group(2)] = seen.get(mo.group(2), 0) + 1
            elif "ofstream" in s: streams.add(s)
    ev = [r for r in p.recs.values() if r["q"] == "heffte::event"]
    for fl in ev[0]["fields"]: ctx.check(seen.get(fl["n"]) == 1, "finalize_tracing: every entry is written with its %s" % fl["n"], "%d times" % seen.get(fl["n"], 0), loc)
    nl = [e for e in pr if any("str(\\n)" in repr(txt(x)).replace("\\\\n", "\\n") or (isinstance(x, Ptr) and x.base.op == "fnptr" and p.fns.get(x.base.args[0], {}).get("n") == "endl") or "\n" in txt(x) for x in e.e.d["args"]) and e.loops]
    ctx.check(nl, "finalize_tracing: entries are on separate lines", "no line ends", loc)
    ctx.check(streams and all("gval(heffte::log_filename)" in s for s in streams), "finalize_tracing: the entries go to the log file of the rank", str(streams)[:150], loc)
    ctx.absorb(m)
def run(ctx):
    ctx.rules = ["every function of the library has the same body with and without tracing once the declarations of trace objects are erased",
                 "a trace object reads the clock when constructed and appends one entry (name, start, duration) to the event log when destroyed; no other effect",
                 "every trace object is a named automatic variable, never a temporary, never copied",
                 "initialization empties the log and names one file per rank; finalization writes name, start and duration of every entry"]
    ctx.assumptions = ["standard streams write what they are given; memory for the log suffices"]
    a = program("int", ON); b = program("int")
    compare(ctx, a, b, "the library")
    for u, nm in (("src/heffte_c.cpp", "c"), ("src/heffte_reshape3d.cpp", "rs"), ("src/heffte_plan_logic.cpp", "planlogic"), ("src/heffte_compute_transform.cpp", "ct")):
        compare(ctx, unit(u, nm + "_trace", ON), unit(u, nm), u)
    n = scopes(ctx, a)
    if n < 5: raise AnchorMissing("trace regions: %d" % n)
    objects(ctx, a)
    logfile(ctx, a)
