"""P28: plans limited to n ranks generate intermediate layouts on the first n ranks only."""
from harness import *
from planlogic import *
import planlogic
from checks import p23
TITLE = "Sub-rank plans keep intermediate data on the selected ranks"
TECHNIQUE = "predicate abstraction of plan_operations (rank maps and grids of every generated layout, any number of ranks) and symbolic evaluation of the layout generators under rank maps"
NOTE = "the maps and grids of generated layouts are decided for any rank counts; the generators' treatment of a map is decided for a list of maps and grids, any world"
def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
def at(m, v, i):
    """entry i of a vector"""
    return vec_get(v, P(i)) if isinstance(v, Vec) else None
def map_ok(m, rm, S, N):
    """map[i] = i for i < S, -1 for S <= i < N"""
    v = rm.f.get("map")
    if not isinstance(v, Vec): return "the rank map is %s" % txt(v)
    if S is None: return None if P(v.size) == ZERO else "a rank map of size %s is used although all ranks take part" % txt(v.size)
    if P(v.size) != N: return "the rank map has %s entries for %s ranks" % (txt(v.size), txt(N))
    i = T("sym", "rank"); mark_nonneg(i)
    x = P(at(m, v, P(i)))
    base = list(m.facts) + [P(i), N - 1 - P(i), S - 1, N - 1 - S]
    if not p23.prove_eq0(x - P(i), base + [S - 1 - P(i)]): return "rank i < n is mapped to %s" % txt(x)
    if not p23.prove_eq0(x + 1, base + [P(i) - S]): return "rank i >= n is mapped to %s" % txt(x)
    if not p23.prove_eq0(P(rm.f.get("size_subcomm", ZERO)) - S, base): return "size_subcomm is %s" % txt(rm.f.get("size_subcomm"))
    return None
def grid_ok(m, g, S):
    """the grid has as many parts as ranks in use"""
    g = [P(x) for x in g]
    pr = g[0] * g[1] * g[2]
    if pr == S: return None
    ts = [t for x in g for t in terms(x, ("pg2",))]
    if ts:
        # grid chosen by make_procgrid2d for a candidate (c0, c1): product c0 * c1 (P23)
        rest = [i for i in range(3) if g[i] != ONE]; c = ts[0].args[:2]; d = int(P(ts[0].args[2]).const)
        if all(t.args[:3] == ts[0].args[:3] for t in ts) and [i for i in range(3) if i != d] == rest or set(rest) <= {i for i in range(3) if i != d}:
            if all(g[i] == P(T("pg2", *c, P(d), P(i))) + 1 for i in range(3) if i != d) and g[d] == ONE: return cand_ok(c, S)
    return "grid %s for %s ranks" % (txt(g), txt(S))
def cand_ok(c, S):
    a, b = P(c[0]), P(c[1]); x = [P(T("pg", S, P(i))) + 1 for i in (0, 1)]
    if a * b == S or (a, b) in ((x[0], x[1]), (x[1], x[0])): return None
    return "candidate grid %s x %s for %s ranks" % (txt(a), txt(b), txt(S))
def layouts(ctx, p, f, cfg, subs):
    """subs: fewer ranks than there are are requested"""
    loc = (f["file"], f["line"]); bad = {}; good = 0; gen = 0
    for m, plan, script in explore(p, f, cfg):
        ctx.absorb(m)
        S = m.S if cfg.sub else None
        why = None
        for e in flatten(m.rec):
            d = e.e.d
            if e.e.kind in ("split", "overlap"):
                gen += 1; why = why or map_ok(m, d["remap"], S, m.N)
                if e.e.kind == "split": why = why or grid_ok(m, d["grid"], m.S if cfg.sub else m.N)
        # every layout handed to the executors is a generated one or a reuse of the user's
        if isinstance(plan, Obj):
            made = {e.e.d["base"].name for e in flatten(m.rec) if e.e.kind == "overlap"}
            for k in ("in_shape", "out_shape"):
                for i, v in enumerate(plan.f[k].el):
                    bs = {m.bases[t.args[0]].name for t in terms(v)}
                    if not bs <= made | {"in", "out"}: why = why or "%s[%d] uses tiles that were not assigned to ranks" % (k, i)
        if why: bad[why] = 1
        else: good += 1
    for w in list(bad)[:3]: ctx.check(False, "plan (%s)" % cfg, w, loc)
    ctx.check(good > 0 and not bad, "plan (%s): generated layouts use ranks 0..n-1 (%d generated layouts on %d paths)" % (cfg, gen, good), "", loc)
def all_ranks(ctx, p, f):
    """requests for zero, a negative or at least the available number of ranks use all ranks"""
    loc = (f["file"], f["line"])
    for what, val in (("no limit", lambda N: P(-1)), ("a limit of 0", lambda N: ZERO), ("as many ranks as there are", lambda N: N), ("more ranks than there are", lambda N: N + 5)):
        cfg = Cfg(True, True, -1, False, None, False); cfg.subs = val
        for m, plan, script in explore(p, f, cfg):
            ctx.absorb(m)
            why = None if not m.st.dead else "planning fails"
            for e in flatten(m.rec):
                if e.e.kind in ("split", "overlap"): why = why or map_ok(m, e.e.d["remap"], None, m.N)
                if e.e.kind == "split": why = why or grid_ok(m, e.e.d["grid"], m.N)
            if why: ctx.check(False, "plan with %s" % what, why, loc); break
        else: ctx.ok("plan with %s uses all ranks" % what)
def generators(ctx, p, f, g, rmap): p23.split_fix(ctx, p, f, g, rmap, len([x for x in rmap if x >= 0]))
def subcomm(ctx, progs):
    """a communicator given with use_subcomm decides which ranks take part"""
    reads = []; loc = ("include/heffte_plan_logic.h", 0); seen = False
    for p in progs:
        for f in p.fns.values():
            own = f["q"].endswith("plan_options::plan_options") or f["q"].endswith("plan_options::use_subcomm")
            if f["q"].endswith("plan_options::use_subcomm"): loc = (f["file"], f["line"]); seen = True
            if own or not f.get("body"): continue
            def walk(x):
                if isinstance(x, dict):
                    if x.get("n") == "subcomm" and x.get("k") not in ("ref", "var"):
                        reads.append(f["q"])
                    for y in x.values(): walk(y)
                elif isinstance(x, list):
                    for y in x: walk(y)
            walk(f["body"]); walk(f.get("inits") or [])
    reads = [r for r in reads if "copy" not in r]
    if not seen: ctx.notes.append("plan_options::use_subcomm is not in the analysed units"); return
    ctx.check(bool(reads), "use_subcomm(comm): the communicator selects the ranks", "the stored communicator is never read; the plan uses rank 0 only", loc, key="use_subcomm")
def settings(ctx, p):
    """the limit set on the options is the limit the plan reads; a fresh set of options has none"""
    O = "heffte::plan_options::"
    cls = None; got = []
    for k in ("use_num_subranks", "get_subranks"):
        fs = [f for f in fns(p, O + k)]
        if not fs: raise AnchorMissing(O + k)
    S, G = fns(p, O + "use_num_subranks")[0], fns(p, O + "get_subranks")[0]
    loc = (S["file"], S["line"]); n = P(T("sym", "limit"))
    m = machine(p); this = this_obj(m, S["cls"])
    call(m, S, args={0: n}, this=this)
    r = call(m, G, this=this); ctx.absorb(m)
    ctx.check(r is n, "use_num_subranks(n): the plan reads the limit n", txt(r), loc)
    for f in p.fns.values():
        if f["k"] != "ctor" or f.get("cls") != S["cls"] or f.get("copy") or f.get("move") or f.get("defaulted") or not (f.get("body") or f.get("inits")): continue
        m = machine(p)
        o = m.construct(f, [symarg(m, x["t"], x["n"] or "a%d" % i) for i, x in enumerate(f["params"])])
        c = m.temp(o); r = call(m, G, this=c); ctx.absorb(m)
        ctx.check(isinstance(r, Poly) and r.is_const and r.const <= 0, "%s: no limit unless one is set" % f["q"], txt(r), (f["file"], f["line"]))
def run(ctx):
    ctx.rules = ["with a limit 0 < n < N, every generated layout uses the map i -> i for i < n and -1 otherwise, on a grid of n parts", "limits outside 0 < n < N use all ranks",
                 "the generators give part map[i] to rank i and an empty box to unmapped ranks; reassignment keeps unmapped ranks empty", "layouts at the ends of the plan are the user's (P10)", "a user communicator selects the ranks"]
    ctx.assumptions = ["make_procgrid(n) multiplies to n and make_procgrid2d keeps the number of parts (P23)"]
    p = unit("src/heffte_plan_logic.cpp", "planlogic")
    fs = fns(p, "heffte::plan_operations")
    if len(fs) < 2: raise AnchorMissing("plan_operations")
    f = fs[0]; its = []
    for pen in (True, False):
        for r2c in (-1, 0, 1, 2) if ctx.tier == "thorough" or not pen else (-1, 1):
            for reo in (True, False) if ctx.tier == "thorough" else (True,):
                its.append(lambda ctx, c=Cfg(pen, reo, r2c, True, None, False): layouts(ctx, p, f, c, True))
    its.append(lambda ctx: layouts(ctx, p, f, Cfg(True, True, -1, True, 1, False), True))
    its.append(lambda ctx: all_ranks(ctx, p, f))
    sw, mo = fns(p, p23.G + "split_world"), fns(p, p23.G + "maximize_overlap")
    if not sw or not mo: raise AnchorMissing("split_world / maximize_overlap")
    maps = [((1, 1, 1), [0, -1, -1]), ((2, 1, 1), [0, 1, -1]), ((1, 2, 2), [0, 1, 2, 3, -1]), ((1, 1, 3), [2, -1, 0, 1]), ((2, 2, 1), [-1, 3, 0, -1, 1, 2])]
    if ctx.tier == "thorough": maps += [((2, 2, 2), [0, 1, 2, 3, 4, 5, 6, 7, -1, -1]), ((3, 1, 2), [0, 1, -1, 2, 3, -1, 4, 5])]
    for s in sw:
        for g, rm in maps: its.append(lambda ctx, s=s, g=g, rm=rm: generators(ctx, p, s, g, rm))
    for o in mo:
        for rm in ([0, -1], [0, 1, -1], [-1, 0, 1], [0, -1, -1], [1, -1, 0]): its.append(lambda ctx, o=o, rm=rm: p23.overlap(ctx, p, o, len(rm), rm))
    its.append(lambda ctx: settings(ctx, p)); its.append(lambda ctx: subcomm(ctx, [p, program("int")]))
    ctx.parallel(its, lambda ctx, it: it(ctx))
