"""P25: user options reach the decisions they document."""
from reshape import *
from planobj import build, built, ctors, delegates, backend_of, short, fld, shape_index
from planlogic import explore, Cfg, terms as lterms
from checks import p10
from execs import executor_ctors
TITLE = "User options are honoured by the plan and the back ends"
TECHNIQUE = "value-flow of every option field from the constructors to the planner, the redistribution factories and the MPI calls; predicate abstraction of the planner per option"
NOTE = "only the back ends that are compiled here (stock, fftw, mkl and their sine/cosine forms)"
REORDER_ONLY = {"stock_cos", "stock_sin", "stock_cos1", "mkl_cos", "mkl_sin"}
FIELDS = ("use_reorder", "algorithm", "use_pencils", "use_gpu_aware", "num_sub", "subcomm")
def enum_consts(p, q):
    e = p.enums.get(q)
    if e is None: raise AnchorMissing(q)
    return {c["n"]: int(c["v"]) for c in e["vals"]} if "vals" in e else {c[0]: int(c[1]) for c in e["e"]}
def tx(v): return show(v) if isinstance(v, (Poly, BD, Term)) else repr(v)
def option(m, o, k):
    """value of field k of an options object; None: field of the user's options"""
    if not isinstance(o, Obj): return "?"
    return o.f.get(k)
# --------------------------------------------------------------------------- constructors
def constructor(ctx, p, c):
    b = built(p, c); ctx.absorb(b.m)
    be = backend_of(p, c); name = "%s, constructor with %d parameters" % (short(p, c) if be in short(p, c) else short(p, c) + "<%s>" % be, len(c["params"])); loc = (c["file"], c["line"])
    if not ctx.check(len(b.plans) == 1, name + ": plans once", "%d plans" % len(b.plans), loc): return
    o = b.plans[0][2]
    oi = [i for i, x in enumerate(c["params"]) if "plan_options" in p.types[x["t"]]["s"] or (p.types[x["t"]]["k"] == "ref" and "plan_options" in p.types[p.types[x["t"]]["el"]]["s"])]
    enums = [i for i, x in enumerate(c["params"]) if p.types[x["t"]]["k"] == "enum"]; bools = [i for i, x in enumerate(c["params"]) if p.types[x["t"]]["k"] == "bool"]
    forced = be in REORDER_ONLY
    if oi:
        # fields not stored explicitly are those of the user's object
        base = o.base if isinstance(o, Obj) else None
        want_base = T("sym", c["params"][oi[0]]["n"] or "arg%d" % oi[0])
        ctx.check(base is want_base, name + ": the plan is made with the user's options", "made with %s" % tx(o), loc)
        for k in FIELDS:
            v = option(b.m, o, k)
            same = v is None or (isinstance(v, Term) and v is T("fld", want_base, k)) or (isinstance(v, Poly) and v == P(T("fld", want_base, k))) or (isinstance(v, BD) and v is batom(T("fld", want_base, k))) \
                or (isinstance(v, Ptr) and repr(v).strip("&") == "%s.%s" % (show(want_base), k))
            if k == "use_reorder" and forced: ctx.check(v is TRUE, name + ": sine/cosine transforms that need contiguous lines are planned with reordering", "use_reorder is %s" % (tx(v) if v is not None else "the user's"), loc)
            else: ctx.check(same, name + ": option %s is the user's" % k, "is %s" % tx(v), loc)
    elif len(bools) == 2 and (enums or bools[1] == bools[0] + 2):
        al = enums[0] if enums else bools[0] + 1
        g = {"algorithm": P(T("sym", c["params"][al]["n"])), "use_reorder": c["params"][bools[0]]["n"], "use_pencils": c["params"][bools[1]]["n"]}
        for k in ("use_reorder", "use_pencils"):
            v = option(b.m, o, k); w = batom(T("sym", g[k]))
            ctx.check((forced and k == "use_reorder" and v is TRUE) or v is w, name + ": option %s is the argument" % k, "is %s" % tx(v), loc)
        ctx.check(P(option(b.m, o, "algorithm")) == g["algorithm"], name + ": option algorithm is the argument", "is %s" % tx(option(b.m, o, "algorithm")), loc)
    else:
        v = option(b.m, o, "use_reorder")
        ctx.check(not forced or v is TRUE, name + ": sine/cosine transforms that need contiguous lines are planned with reordering", "use_reorder is %s" % tx(v), loc)
        ctx.check(P(option(b.m, o, "num_sub")) == P(-1), name + ": default options use all ranks", "num_sub is %s" % tx(option(b.m, o, "num_sub")), loc)
    # the object's redistributions are made with the plan's options
    k = 0
    for v in b.resh:
        op = [x for x in v if isinstance(x, Obj) and p.recs.get(x.rec, {}).get("q", "").endswith("plan_options")]
        ctx.check(len(op) == 1 and op[0].base is fld("options") and not op[0].f, name + ": redistribution %d uses the plan's options" % k, "uses %s" % tx(op), loc); k += 1
def defaults(ctx, p, f):
    m = machine(p); o = call(m, f, {}); ctx.absorb(m); be = f["ta"][0].replace("heffte::backend::", ""); loc = (f["file"], f["line"])
    name = "default_options<%s>" % be
    if not isinstance(o, Obj): ctx.check(False, name, tx(o), loc); return
    ctx.check(o.f.get("use_reorder") is TRUE if be in REORDER_ONLY else o.f.get("use_reorder") in (TRUE, FALSE), name + ": reordering is set" + (" (required)" if be in REORDER_ONLY else ""), tx(o.f.get("use_reorder")), loc)
    ctx.check(o.f.get("use_pencils") is TRUE, name + ": pencils", tx(o.f.get("use_pencils")), loc)
    ctx.check(o.f.get("use_gpu_aware") is TRUE, name + ": GPU-aware communication", tx(o.f.get("use_gpu_aware")), loc)
    ctx.check(P(o.f.get("algorithm", -5)) == P(enum_consts(p, "heffte::reshape_algorithm")["alltoallv"]), name + ": alltoallv", tx(o.f.get("algorithm")), loc)
    ctx.check(P(o.f.get("num_sub", 0)) == P(-1), name + ": all ranks", tx(o.f.get("num_sub")), loc)
def subranks(ctx, p):
    fs = fns(p, "heffte::plan_options::use_num_subranks"); gs = fns(p, "heffte::plan_options::get_subranks")
    if not fs or not gs: ctx.notes.append("use_num_subranks/get_subranks not instantiated"); return
    m = machine(p); t = this_obj(m, fs[0]["cls"], "o"); n = P(T("sym", "n")); call(m, fs[0], {0: n}, this=t); r = P(call(m, gs[0], {}, this=t)); ctx.absorb(m)
    ctx.check(r == n, "use_num_subranks(n) is what get_subranks() returns", "returns %s" % tx(r), (fs[0]["file"], fs[0]["line"]))
    v = m.st.s[t.base]
    ctx.check(isinstance(v, Obj) and not (set(v.f) - {"num_sub"}), "use_num_subranks changes nothing else", tx(v), (fs[0]["file"], fs[0]["line"]))
# --------------------------------------------------------------------------- communication algorithm
def algorithms(ctx, p, f):
    t = dispatch(p, f, (0, 1, 2), (0, 1, 2)); ctx.absorb(t.m); loc = (f["file"], f["line"])
    A = enum_consts(p, "heffte::reshape_algorithm"); opt = T("sym", t.opt); leaf = T("fld", opt, "algorithm")
    want = {"alltoall": "make_reshape3d_alltoall", "alltoallv": "make_reshape3d_alltoallv", "p2p": "make_reshape3d_pointtopoint", "p2p_plined": "make_reshape3d_pointtopoint"}
    if set(A) != set(want): raise AnchorMissing("reshape_algorithm has %s" % sorted(A))
    def sub(x, k):
        mm = {leaf: P(k)}
        for l in deps(x) - {leaf}: mm.setdefault(l, l)
        return subst(x, mm)
    for k, v in A.items():
        live = [e for e in t.effs if e.e.kind == "mk" and sub(e.g, v) is not FALSE]
        name = "make_reshape3d<%s>, algorithm %s" % (f["ta"][0].split("::")[-1], k)
        got = sorted({e.e.d["q"].split("::")[-1] for e in live})
        ctx.check(got == [want[k]], name + ": uses the requested algorithm", "calls %s" % got, loc)
        for e in live:
            ar = [m_ for m_ in e.e.d["args"]]
            ctx.check(any(x is batom(T("fld", opt, "use_gpu_aware")) for x in ar), name + ": the GPU-aware option is passed on", tx(ar), loc)
            if k.startswith("p2p"):
                al = [x for x in ar if isinstance(x, Poly) and (x == P(leaf) or x == P(v))]
                ctx.check(len(al) == 1, name + ": the point-to-point variant is passed on", tx(ar), loc)
MPI_OF = {"alltoall": ({"MPI_Alltoall"}, set()), "alltoallv": ({"MPI_Alltoallv"}, set()), "p2p": ({"MPI_Irecv", "MPI_Send"}, {"MPI_Waitany", "MPI_Waitall", "MPI_Waitsome", "MPI_Wait"}), "p2p_plined": ({"MPI_Irecv", "MPI_Isend"}, {"MPI_Waitany", "MPI_Waitall", "MPI_Waitsome", "MPI_Wait"})}
def calls(ctx, p, c):
    t = get_trace(p, c); alg = c[1] or c[0]
    name = "redistribution %s, %s, %s" % (alg, c[2], c[3])
    if t.null: ctx.ok(name + ": nothing to do"); return
    q = {e.e.d["q"] for e in t.flat if e.e.kind == "call" and e.e.d.get("q", "").startswith("MPI_") and e.g is not FALSE} - {"MPI_Wtime"}
    need, more = MPI_OF[alg]
    ctx.check(need <= q <= need | more, name + ": communicates with the calls of the algorithm", "uses %s" % sorted(q), (t.apply["file"], t.apply["line"]))
# --------------------------------------------------------------------------- planner
def planner(ctx, p, f, cfg):
    loc = (f["file"], f["line"]); n = 0
    slab_used = 0; aligned_free = 0; bad = {}
    for m, plan, script in explore(p, f, cfg):
        ctx.absorb(m); n += 1
        grids = [[P(x) for x in e.e.d["grid"]] for e in flatten(m.rec) if e.e.kind == "split"]
        slab = [g for g in grids if sum(1 for x in g if x == ONE) >= 2]
        flat2 = cfg.world is not None
        if cfg.pencils and slab: bad["a slab layout %s is generated" % tx(slab[0])] = 1
        if not cfg.pencils and not flat2:
            # nothing aligned: input and output have no complete axis
            if not any(v for (b, d), v in m.keys.items() if b.name in ("in", "out")):
                aligned_free += 1
                if slab: slab_used += 1
                else: bad["only pencils are generated although slabs are requested"] = 1
        if isinstance(plan, Obj) and not cfg.reorder and cfg.oin == cfg.oout:
            for i in range(3):
                try: o = p10.info(m, plan.f["out_shape"].el[i], "out_shape[%d]" % i)[1]
                except p10.Bad as e: bad[str(e)] = 1; continue
                if o != tuple(cfg.oin): bad["out_shape[%d] has memory order %s although reordering is off and the data has order %s" % (i, o, cfg.oin)] = 1
    for w in list(bad)[:3]: ctx.check(False, "plan (%s)" % cfg, w, loc)
    if not cfg.pencils and cfg.world is None: ctx.check(aligned_free > 0, "plan (%s): paths without aligned data exist" % cfg, "", loc)
    ctx.check(not bad, "plan (%s): the layout options are honoured on all %d paths" % (cfg, n), "", loc)
# --------------------------------------------------------------------------- fused transforms
def fused(ctx, p, tag):
    for d, np in ((2, 4), (3, 2)):
        tr = [f for f in fns(p, "heffte::has_executor%dd" % d) if f["ta"][0] == tag]; mk = [f for f in fns(p, "heffte::make_executor") if f["ta"][0] == tag and len(f["params"]) == np]
        if not tr or not mk: ctx.notes.append("no has_executor%dd/make_executor for %s" % (d, tag)); continue
        m = machine(p); has = m.boolean(call(m, tr[0], {})); ctx.absorb(m)
        m = machine(p); call(m, mk[0], {}); ctx.absorb(m)
        th = [e for e in flatten(m.rec) if e.e.kind == "throw" and e.g is not FALSE]; new = [e for e in flatten(m.rec) if e.e.kind == "new" and e.g is not FALSE]
        works = not th
        name = "%s: has_executor%dd" % (tag.replace("heffte::backend::", ""), d)
        ctx.check((has is TRUE) == works and has in (TRUE, FALSE), name + " matches what the executor can do", "has %s, construction %s" % (tx(has), "works" if works else "throws"), (tr[0]["file"], tr[0]["line"]))
def run(ctx):
    ctx.rules = ["every constructor plans with the user's options; reordering is forced exactly for back ends that need it", "defaults: alltoallv, pencils, all ranks", "the requested algorithm selects the redistribution class and its MPI calls; the GPU-aware option is passed on",
                 "pencils generate no slabs, slabs are used when nothing is aligned; without reordering data in the canonical memory order stays in it", "has_executor2d/3d agree with the executors"]
    p = program("int"); pl = unit("src/heffte_plan_logic.cpp", "planlogic"); its = []
    cs = [c for c in ctors(p) if delegates(c)]
    if not cs: raise AnchorMissing("public constructors")
    for c in cs: its.append(lambda ctx, c=c: constructor(ctx, p, c))
    fs = fns(p, "heffte::default_options")
    if not fs: raise AnchorMissing("default_options")
    for f in fs: its.append(lambda ctx, f=f: defaults(ctx, p, f))
    its.append(lambda ctx: subranks(ctx, p))
    ds = [f for f in fns(p, "heffte::make_reshape3d") if f.get("ta")]
    if not ds: raise AnchorMissing("make_reshape3d")
    for f in ds: its.append(lambda ctx, f=f: algorithms(ctx, p, f))
    seen = set()
    rs = program("reshape") if False else p
    for c in configs(ctx.tier):
        if (c[0], c[1], c[2], c[3]) in seen or (c[7] and not all(c[7].values())): continue
        seen.add((c[0], c[1], c[2], c[3])); its.append(lambda ctx, c=c: calls(ctx, p, c))
    f = fns(pl, "heffte::plan_operations")
    if not f: raise AnchorMissing("plan_operations")
    f = f[0]
    for pen in (True, False):
        for r2c in (-1, 0, 2) if ctx.tier == "thorough" else (-1, 1):
            its.append(lambda ctx, c=Cfg(pen, True, r2c, False, None, False): planner(ctx, pl, f, c))
            its.append(lambda ctx, c=Cfg(pen, False, r2c, False, None, False): planner(ctx, pl, f, c))
    for tag in sorted({f["ta"][0] for f in fns(p, "heffte::has_executor2d")}): its.append(lambda ctx, tag=tag: fused(ctx, p, tag))
    ctx.parallel(its, lambda ctx, it: it(ctx))
