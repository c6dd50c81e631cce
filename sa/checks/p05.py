"""P05: collective operations."""
from reshape import *
import planlogic, planobj, planexec, pipeline, concrete
TITLE = "Collective operations are entered by every rank of their communicator"
TECHNIQUE = "effect analysis of MPI calls: whole-program census of call sites, rank-independence of their guards and order by information flow, predicate abstraction of the peer group computation"

LOCAL = set("""MPI_Comm_rank MPI_Comm_size MPI_Comm_group MPI_Group_incl MPI_Group_excl MPI_Group_free MPI_Group_rank MPI_Group_size MPI_Group_union MPI_Group_translate_ranks
MPI_Comm_compare MPI_Comm_test_inter MPI_Wtime MPI_Wtick MPI_Initialized MPI_Finalized MPI_Get_count MPI_Type_size MPI_Type_commit MPI_Type_free MPI_Comm_f2c MPI_Comm_c2f
MPI_Error_string MPI_Error_class MPI_Comm_set_errhandler MPI_Get_processor_name MPI_Query_thread MPI_Abort MPI_Type_contiguous MPI_Type_vector MPI_Type_create_subarray""".split())
P2P = set("""MPI_Send MPI_Ssend MPI_Bsend MPI_Rsend MPI_Isend MPI_Issend MPI_Recv MPI_Irecv MPI_Sendrecv MPI_Wait MPI_Waitall MPI_Waitany MPI_Waitsome MPI_Test MPI_Testall MPI_Testany
MPI_Testsome MPI_Probe MPI_Iprobe MPI_Cancel MPI_Request_free MPI_Send_init MPI_Recv_init MPI_Start MPI_Startall MPI_Sendrecv_replace""".split())
def kind(q): return "local" if q in LOCAL else "p2p" if q in P2P else "collective"
def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)): yield from walk(v)
    elif isinstance(n, list):
        for v in n: yield from walk(v)
def mpi_sites(p):
    """(function, MPI routine, line)"""
    out = []
    for f in p.fns.values():
        if f.get("body") is None and not f.get("inits"): continue
        if not f.get("ours", True): continue
        for n in walk([f.get("body"), f.get("inits")]):
            if n.get("k") == "call" and "f" in n:
                g = p.fns.get(n["f"])
                if g is not None and g["q"].startswith("MPI_"): out.append((f, g["q"], n.get("l", f["line"])))
    return out

# ---------------------------------------------------------------- computation of the group
def closure(seed, N, edge):
    s = set(seed); w = list(seed)
    while w:
        i = w.pop()
        for j in range(N):
            if j not in s and (edge(i, j) or edge(j, i)): s.add(j); w.append(j)
    return sorted(s)
def groups(ctx, p, f, N, me, seeds):
    """every rank of a connected set of ranks must compute the same list"""
    send, recv = seeds
    nm = "a2a_group<%s> for %d ranks" % (f["ta"][0], N)
    def h_collide(m, fn, this, a, n):
        x = m.read(this); y = m.read(a[0]) if isinstance(a[0], LV) else a[0]
        if not isinstance(x, Obj) or not isinstance(y, Obj) or x.base is None or y.base is None: return NotImplemented
        return Obj(x.rec, {}, T("ovl", x.base, y.base))
    def h_empty(m, fn, this, a, n):
        k = m.read(this).base
        if k is None: return NotImplemented
        if k.op == "box": return FALSE if m.choose(("b", k.args[0], int(k.args[1].const))) else TRUE
        (n1, i), (n2, j) = [(x.args[0], int(x.args[1].const)) for x in k.args]
        if n1 == n2: return FALSE if m.choose(("s", n1, min(i, j), max(i, j))) else TRUE
        return FALSE if m.choose(("c", i, j) if n1 == "in" else ("c", j, i)) else TRUE
    def rule(what):
        # ranks given as direct peers are peers
        if what[0] == "c":
            i, j = what[1:]
            if i == me and j in send and send != [me]: return True
            if j == me and i in recv and recv != [me]: return True
            if i == me and send != [me]: return False
            if j == me and recv != [me]: return False
        return None
    def run(m):
        vt = [m.strip(f["params"][k]["t"]) for k in range(4)]
        et = m.eltype(vt[2]); rec = m.strip(et)["rec"]; it = m.eltype(vt[0])
        box = lambda n: VElems(et, m.size(et), [Obj(rec, {}, T("box", n, P(k))) for k in range(N)])
        ints = lambda l: VElems(it, m.size(it), [P(x) for x in l])
        return call(m, f, {0: ints(send), 1: ints(recv), 2: box("in"), 3: box("out")})
    cnt = 0
    for m, r in concrete.enum(p, run, {"heffte::box3d::collide": h_collide, "heffte::box3d::empty": h_empty}, rule=rule):
        cnt += 1
        if cnt == 1: ctx.absorb(m)
        got = [int(P(x).const) for x in r.el] if isinstance(r, VElems) and all(P(x).is_const for x in r.el) else None
        known = {k[1:]: v for k, v in m.memo.items() if isinstance(k, tuple) and k[0] == "c"}
        def e(dflt):
            def edge(i, j):
                v = known.get((i, j))
                if v is None: v = rule(("c", i, j))
                return dflt if v is None else v
            return edge
        seed = sorted(set(send) | set(recv))
        lo = closure(seed, N, e(False)); hi = closure(seed, N, e(True))
        if any(isinstance(k, tuple) and k[0] in "sb" for k in m.memo): raise AnchorMissing("a2a_group uses other relations than the overlap of input with output boxes")
        if got != lo or got != hi:
            ctx.check(False, "%s, own peers %s/%s: the group is the set of all ranks connected to this rank, in ascending order, on every one of them" % (nm, send, recv),
                      "exchanges %s: computed %s, connected ranks %s" % (sorted(k for k, v in known.items() if v), got if got is not None else repr(r)[:200], lo if lo == hi else "%s to %s" % (lo, hi)), (f["file"], f["line"]))
            return
    ctx.ok("%s, own peers %s/%s: the group is the set of connected ranks (%d overlap patterns)" % (nm, send, recv, cnt))

# ---------------------------------------------------------------- redistributions
def rankdep(x, me):
    """terms through which a value depends on this rank's own data"""
    bad = []
    for t in deps(x):
        if t is me or any(d is me for a in t.args if isinstance(a, (Term, Poly)) for d in deps(a)): bad.append(t)
    return bad
def colls(effs, funcs):
    out = []
    for f in effs:
        if f.e.kind == "call" and f.e.d["q"].startswith("MPI_") and kind(f.e.d["q"]) == "collective": out.append(f); funcs.add(f.e.d["q"])
    return out
def pos(v):
    return show(v.base) if isinstance(v, Ptr) else repr(v)
def one(ctx, p, c):
    t = get_trace(p, c); ctx.absorb(t.m); name = cname(c)
    seen = set()
    mk = colls(flatten(t.make_effs), seen)
    if c[0] == "pointtopoint":
        ctx.check(not mk, name + ": setting up point-to-point messages involves no collective operation", [f.e.d["q"] for f in mk], mk[0].e.loc if mk else None)
    else:
        ctx.check([f.e.d["q"] for f in mk] == ["MPI_Comm_create"] or [f.e.d["q"] for f in mk] == ["MPI_Comm_create_group"] and not t.null,
                  name + ": every rank takes part in creating the communicators of the exchange, whether it holds data or not", "collective calls %s" % [f.e.d["q"] for f in mk], (t.f["file"], t.f["line"]))
    for f in mk:
        q = f.e.d["q"]
        ctx.check(f.g is TRUE and not f.loops, name + ": %s is called unconditionally" % q, "called only if %s%s" % (show(f.g), "" if not f.loops else " in a loop"), f.e.loc)
        if q == "MPI_Comm_create":
            cp = [x["n"] for x in t.f["params"] if "MPI_Comm" in t.m.ty(x["t"])["s"] or "communicator" in t.m.ty(x["t"])["s"]]
            ctx.check(len(cp) == 1 and pos(f.e.d["args"][0]) in ("sym(%s)" % cp[0], cp[0], "*" + cp[0]) or pos(f.e.d["args"][0]).find(cp[0]) >= 0, name + ": %s is called on the communicator of the plan" % q, pos(f.e.d["args"][0]), f.e.loc)
    if t.null:
        ctx.ok(name + ": a rank without peers takes part in no exchange"); return
    ap = colls(t.flat, seen)
    if c[0] == "pointtopoint":
        ctx.check(not ap, name + ": point-to-point exchange involves no collective operation", [f.e.d["q"] for f in ap], ap[0].e.loc if ap else None); return
    tot = FALSE; over = FALSE
    for f in ap:
        q = f.e.d["q"]
        ctx.check(not f.loops, name + ": %s is called once per redistribution" % q, "called in a loop", f.e.loc)
        rd = [d for d in deps(f.g) if d is not t.batch]
        ctx.check(not rd, name + ": %s does not depend on the rank's own data" % q, "called only if %s" % show(f.g), f.e.loc)
        over = bor(over, band(tot, f.g)); tot = bor(tot, f.g)
    ctx.check(tot is TRUE and over is FALSE, name + ": every rank of the exchange calls it exactly once", "collective calls %s" % [(f.e.d["q"], show(f.g)) for f in ap], (t.apply["file"], t.apply["line"]))
    ctx.check(len({f.e.d["q"] for f in ap}) == 1, name + ": the same collective operation on all ranks", [f.e.d["q"] for f in ap], (t.apply["file"], t.apply["line"]))

def dispatching(ctx, p, f, a, b):
    """which algorithm is used depends only on options and on the complete layouts"""
    t = dispatch(p, f, a, b); m = t.m; ctx.absorb(m)
    nm = "make_reshape3d<%s> order %s->%s" % (f["ta"][0].split("::")[-1], a, b)
    for fl in t.effs:
        if fl.e.kind != "mk": continue
        rd = rankdep(fl.g, t.L.me)
        ctx.check(not rd, nm + ": the algorithm does not depend on the rank", "%s is used if %s" % (fl.e.d["q"], show(fl.g)), fl.e.loc)
    for x in t.match_args:
        ok = all(vecname(v) is not None for v in x)
        ctx.check(ok, nm + ": layouts are compared for all ranks", txt_(x)[:200], (f["file"], f["line"]))
def txt_(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)

# ---------------------------------------------------------------- planner
ME = None
def plans(ctx, p, f, cfg):
    n = 0; me = T("sym", "me")
    def own(m, this): return me in deps(m.read(this)) or any(d is me for t in planlogic.terms(m.read(this)) for d in deps(t))
    def h_empty(m, fn, this, a, node):
        if not own(m, this): return NotImplemented
        return TRUE if m.free.setdefault(T("own box is empty", me), m.choose([False, True])) else FALSE
    def h_count(m, fn, this, a, node): return P(T("own count", me)) if own(m, this) else NotImplemented
    cfg.hooks = {"heffte::box3d::empty": h_empty, "heffte::box3d::count": h_count}
    for m, r, script in planlogic.explore(p, f, cfg):
        if n == 0: ctx.absorb(m)
        n += 1
        fields = {k: v for k, v in r.f.items() if k not in ("mpi_rank", "index_count")}
        bad = []
        for k, v in sorted(fields.items()):
            if planlogic.terms(v, ("sym",)) & {me} or me in deps(v): bad.append(k)
        if not ctx.check(not bad, "plan (%s): identical on all ranks" % cfg, "%s depends on the rank that computes it" % bad, (f["file"], f["line"])): return
        used = [a for a in m.free if me in deps(a) or planlogic.terms(a, ("sym",)) & {me}]
        if not ctx.check(not used, "plan (%s): decisions are the same on all ranks" % cfg, str([show(a) for a in used])[:300], (f["file"], f["line"])): return

# ---------------------------------------------------------------- construction of plan objects
def construct(ctx, p, c):
    nm = "constructor of %s (line %s)" % (planobj.short(p, c), c["line"])
    seqs = []
    r2c = "fft3d_r2c" in c["q"]
    for sh, empty in (((1, 1, 1, 1), False), ((0, 0, 0, 0), True), ((1, 0, 1, 0), False), ((0, 1, 0, 1), True)):
        for ex in ((lambda fn, v: True), (lambda fn, v: False)):
            b = planobj.built(p, c, empty=empty, sh=sh, bsh=tuple(reversed(sh)), ex=ex)
            if not seqs: ctx.absorb(b.m)
            s = []
            for e in b.effs:
                if e.e.kind in ("gather", "plan", "make_reshape") or e.e.kind == "call" and kind(e.e.d["q"]) == "collective" and e.e.d["q"].startswith("MPI_"):
                    what = e.e.d.get("q", e.e.kind)
                    if e.e.kind == "make_reshape":
                        v = e.e.d["args"]; what = "%s %s->%s" % (what, planobj.shape_index(v[1]), planobj.shape_index(v[2]))
                    s.append((what, e.g is TRUE and not e.loops, e.e.loc, show(e.g)))
            seqs.append(s)
    for s in seqs:
        for w, ok, loc, g in s:
            ctx.check(ok, "%s: %s is reached by every rank" % (nm, w), "only if %s" % g, loc)
        ctx.check([x[0] for x in s] == [x[0] for x in seqs[0]], "%s: the same sequence of collective steps on ranks with and without data" % nm, "%s / %s" % ([x[0] for x in s], [x[0] for x in seqs[0]]), (c["file"], c["line"]))
    if not seqs[0]: raise AnchorMissing(nm + ": no collective steps")

# ---------------------------------------------------------------- transforms
def pipes(ctx, p, kd, f, plan):
    """the sequence of redistributions is the same whether or not a rank has data in any stage"""
    nm = "%s pipeline%s (%s:%s)" % (kd, " of a real-to-complex plan" if plan else "", f["file"].split("/")[-1], f["line"])
    seqs = {}
    for sc in pipeline.scenarios(kd, dirs=(0,) if kd == "r2c" else (1,) if kd == "c2r" else (0, 1), r2cplan=plan):
        if len(set(sc.emp)) > 1 and ctx.tier != "thorough" and sum(sc.emp) not in (1, 4): continue
        r = pipeline.analyse(p, f, sc, plan)
        if not seqs: ctx.absorb(r.m)
        s = []
        bad = None
        for e in flatten(r.effs):
            if e.e.kind == "stage" and e.e.d["what"] == "shaper" and e.e.d["fn"] == "apply":
                s.append(e.e.d["i"])
                if e.g is not TRUE or e.loops: bad = e
        if bad is not None:
            ctx.check(False, "%s: %r: every present redistribution is executed" % (nm, sc), "only if %s" % show(bad.g), r.floc); return
        seqs.setdefault((sc.sh, sc.dir, sc.fuse), []).append((tuple(s), sc, r.floc))
    for key, l in seqs.items():
        want = tuple(i for i in range(4) if key[0][i])
        for s, sc, loc in l:
            ctx.check(s == want, "%s: redistributions %s are executed once each in this order on ranks with and without data" % (nm, "".join(map(str, key[0]))), "%r: %s" % (sc, s), loc)
def method(ctx, p, f):
    nm = "%s::%s(%s) line %s" % (planobj.short(p, f), f["n"], ", ".join(p.types[x["t"]]["s"].replace("std::", "") for x in f["params"])[:80], f["line"])
    r = planexec.trace_method(p, f); ctx.absorb(r.m)
    th = FALSE; pg = FALSE
    for e in r.effs:
        if e.e.kind == "throw": th = bor(th, e.g)
    n = 0
    for e in r.effs:
        if e.e.kind == "pipeline": n += 1; pg = bor(pg, e.g); last = e
    if n == 0:
        # overloads that forward to another public overload are covered there
        vc = [e for e in r.effs if e.e.kind in ("vcall", "call")]
        ctx.check(False, nm + ": the transform is executed", "no pipeline is run", (f["file"], f["line"])); return
    for g in (0, 1):
        x = (pg, th)[g]
        for t in bd_support(x):
            if t.op == "isnull": x = r.m.restrict(x, t, False)     # the boxes of a plan always exist
        if g: th = x
        else: pg = x
    ctx.check(pg is bnot(th) and not last.loops, nm + ": the redistributions are entered whatever this rank's sizes are", "only if %s (errors raised if %s)" % (show(pg), show(th)), last.e.loc)

def run(ctx):
    p = program("int")
    ctx.rules = ["every MPI call site of the library is classified; every collective one lies on an analysed path", "guards of collective calls are rank independent; order identical for ranks with and without data",
                 "a2a_group returns the connected component of the exchange graph, sorted, for all overlap patterns", "plan fields and decisions have no dependence on the calling rank"]
    ctx.assumptions = ["options and communicator are the same on all ranks (documented contract)", "input and output layouts cover the same index range"]
    sites = []
    for prog in (p, unit("src/heffte_c.cpp", "c"), unit("src/heffte_plan_logic.cpp", "planlogic"), unit("src/heffte_compute_transform.cpp", "ct"), unit("src/heffte_reshape3d.cpp", "rs")):
        sites += mpi_sites(prog)
    if not [s for s in sites if kind(s[1]) == "collective"]: raise AnchorMissing("collective MPI calls")
    # where each collective call may be
    reach = set()
    fs = fns(p, "heffte::a2a_group")
    if not fs: raise AnchorMissing("heffte::a2a_group")
    N = 5 if ctx.tier == "thorough" else 4
    jobs = []
    for f in fs:
        for me in range(N if f is fs[0] else 2):
            jobs += [("g", f, N, me, s) for s in (([me], [me]), ([me], []), ([], [me]), ([], []))]
            oth = [j for j in range(N) if j != me]
            jobs += [("g", f, N, me, s) for s in (([oth[0]], []), ([], [oth[-1]]), ([oth[1]], [oth[0]]), ([me, oth[0]], [oth[0], oth[1]]), (oth, []), (oth[:2], [me]))]
    jobs += [("t", c) for c in configs(ctx.tier) if c[4] == "double" or ctx.tier == "thorough"] + [("t", (w, None, "direct_packer", i, "double", (0, 1, 2), (0, 1, 2), k)) for w in ("alltoall", "alltoallv") for i in ("int", "long long") for k in (dict(group="empty"), dict(group="empty", selfcomm=False, send=False, recv=False))]
    ds = fns(p, "heffte::make_reshape3d")
    for f in ds: jobs += [("d", f, a, b) for a, b in (((0, 1, 2), (0, 1, 2)), ((0, 1, 2), (2, 0, 1)))]
    pu = unit("src/heffte_plan_logic.cpp", "planlogic")
    from checks import p10
    po = fns(pu, "heffte::plan_operations")
    jobs += [("p", pu, po[0], c) for c in p10.configs("quick")[:: 1 if ctx.tier == "thorough" else 3]]
    cs = [c for c in planobj.ctors(p) if not planobj.delegates(c)]
    jobs += [("c", c) for c in cs]
    ins = pipeline.instances(p)
    for (kd, ty), f in ins.items():
        if ctx.tier == "thorough" or "double" in ty: jobs += [("x", kd, f, pln) for pln in ((False, True) if kd in ("r2c", "c2r") else (False,))]
    jobs += [("m", f) for f in planexec.methods(p)]
    def job(ctx, j):
        if j[0] == "g": groups(ctx, p, *j[1:])
        elif j[0] == "t": one(ctx, p, j[1])
        elif j[0] == "d": dispatching(ctx, p, *j[1:])
        elif j[0] == "p": plans(ctx, *j[1:])
        elif j[0] == "c": construct(ctx, p, j[1])
        elif j[0] == "x": pipes(ctx, p, *j[1:])
        elif j[0] == "m": method(ctx, p, j[1])
    ctx.parallel(jobs, job)
    # gathering of the layouts and set-up of sub-ranks: unconditional
    for f in fns(p, "heffte::mpi::gather_boxes") + [f for f in fns(p, "heffte::rank_remap::set_subranks") if "MPI" in p.types[f["params"][0]["t"]]["s"] or "comm" in p.types[f["params"][0]["t"]]["s"]]:
        m = machine(p); call(m, f); ctx.absorb(m)
        k = 0
        for fl in flatten(m.rec):
            if fl.e.kind == "call" and fl.e.d["q"].startswith("MPI_") and kind(fl.e.d["q"]) == "collective":
                k += 1
                ctx.check(fl.g is TRUE and not fl.loops, "%s: %s is called by every rank" % (f["n"], fl.e.d["q"]), "only if %s" % show(fl.g), fl.e.loc)
        if not k: raise AnchorMissing("collective operation in " + f["q"])
    for f in fns(p, "heffte::mpi::comm_free"):
        m = machine(p); call(m, f); ctx.absorb(m)
    seen = set()
    for f, q, l in sites:
        k = kind(q)
        if (f["file"], l, q) in seen: continue
        seen.add((f["file"], l, q))
        ctx.check(k != "collective" or f["q"] in ctx.funcs, "%s:%s: %s (%s) is called from analysed code" % (f["file"].split("/")[-1], l, q, k), "collective operation in %s, which is not part of plan construction, redistribution or destruction" % f["q"], (f["file"], l))
