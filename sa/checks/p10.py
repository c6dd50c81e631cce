"""P10: plan_operations produces a chain of layouts that transforms each axis once, on complete lines, ending in the user's layout."""
from planlogic import *
import planobj
TITLE = "Plans transform all three directions on complete lines and chain their layouts"
TECHNIQUE = "predicate abstraction of the plan logic: every outcome of the layout tests, layouts as symbolic box vectors over any number of ranks"
LEVEL = "proof"
ORD = list(itertools.permutations(range(3)))
def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
def configs(tier):
    out = []; k = 0
    for pencils in (True, False):
        for r2c in (-1, 0, 1, 2):
            for reorder in (True, False):
                for sub in (False, True):
                    if tier != "thorough" and sub and (reorder or r2c in (0, 2)): continue
                    pairs = list(itertools.product(ORD, ORD)) if tier == "thorough" and reorder and not sub else [(ORD[(k * 7 + 1) % 6], ORD[(k * 5 + 3) % 6])]
                    for a, b in pairs: out.append(Cfg(pencils, reorder, r2c, sub, None, False, a, b)); k += 1
            for reorder in (True, False):
                out.append(Cfg(pencils, reorder, r2c, False, None, True, ORD[k % 6], ORD[(k * 5 + 3) % 6])); k += 1
                for w in range(3):
                    if tier != "thorough" and (w + r2c + reorder) % 3: continue
                    out.append(Cfg(pencils, reorder, r2c, False, w, False, ORD[k % 6], ORD[(k + 2) % 6])); k += 1
    return out
class Bad(Exception): pass
def boxes_of(m, v, what):
    """per-rank box of a layout, at one arbitrary rank r"""
    if isinstance(v, VFn):
        r = T("n", "rank", 0)
        if not (v.size == m.N): raise Bad("%s has %s boxes" % (what, txt(v.size)))
        o = subst(v.body, {v.n: P(r)})
    elif isinstance(v, VElems):
        if not m.N.is_const or len(v.el) != int(m.N.const): raise Bad("%s has %d boxes" % (what, len(v.el)))
        o = v.el[0]; r = ZERO
    else: raise Bad("%s cannot be described per rank: %s" % (what, txt(v)[:200]))
    return simplify(m, o), r
def simplify(m, o):
    if isinstance(o, GV):
        alts = [x for g, x in o.alts if m.decide(g) is not FALSE]
        if len(alts) == 1: return alts[0]
    return o
def info(m, v, what):
    """(ranges per axis with what is known applied, memory order)"""
    o, r = boxes_of(m, v, what)
    if not isinstance(o, Obj): raise Bad("%s depends on the rank in an unknown way: %s" % (what, txt(o)[:300]))
    rng = []
    for d in range(3):
        lo, hi, sz = (m.norm(P(o.f[k].el[d])) for k in ("low", "high", "size"))
        if sz != hi - lo + 1: raise Bad("%s: size of axis %d is %s" % (what, d, txt(sz)))
        rng.append((lo, hi))
    order = [P(x) for x in o.f["order"].el]
    if any(not x.is_const for x in order) or sorted(int(x.const) for x in order) != [0, 1, 2]: raise Bad("%s: memory order %s" % (what, txt(order)))
    return rng, tuple(int(x.const) for x in order), r
def covers(m, rng, r, W, what):
    """the boxes are a disjoint cover of W"""
    bs = {t.args[0] for a in rng for x in a for t in terms(x)}
    full = [d for d in range(3) if rng[d] == W[d]]
    if not bs:
        if len(full) == 3 and m.cfg.single: return
        raise Bad("%s: every rank holds %s" % (what, txt(rng)))
    if len(bs) > 1: raise Bad("%s mixes layouts %s" % (what, txt(rng)))
    b = m.bases[bs.pop()]
    for d in range(3):
        lo = P(T("lo", b.t, P(d), P(r))); hi = lo + P(T("ext", b.t, P(d), P(r)))
        if rng[d] == (m.norm(lo), m.norm(hi)) and b.cov[d] == W[d]: continue
        if d in full and m.keys.get((b, d)): continue
        raise Bad("%s: axis %d is %s..%s, the world has %s..%s" % (what, d, txt(rng[d][0]), txt(rng[d][1]), txt(W[d][0]), txt(W[d][1])))
def judge(m, plan, cfg):
    """raises Bad with the reason if the plan is wrong"""
    if not isinstance(plan, Obj): raise Bad("no plan is returned: %s" % txt(plan)[:200])
    ins, outs = plan.f["in_shape"].el, plan.f["out_shape"].el
    dirs = [P(x) for x in plan.f["fft_direction"].el]
    if any(not x.is_const for x in dirs) or sorted(int(x.const) for x in dirs) != [0, 1, 2]: raise Bad("transform directions %s" % txt(dirs))
    dirs = [int(x.const) for x in dirs]
    if cfg.r2c >= 0 and dirs[0] != cfg.r2c: raise Bad("the real-to-complex axis %d is transformed at stage %d" % (cfg.r2c, dirs.index(cfg.r2c)))
    I, O = [], []
    for i in range(4):
        a = info(m, ins[i], "in_shape[%d]" % i); W = m.WIN if i == 0 else m.WOUT
        covers(m, a[0], a[2], W, "in_shape[%d]" % i); I.append(a)
        a = info(m, outs[i], "out_shape[%d]" % i); W = m.WIN if i == 0 else m.WOUT
        covers(m, a[0], a[2], W, "out_shape[%d]" % i); O.append(a)
    u = info(m, m.boxes.f["in"], "input boxes")
    if (I[0][0], I[0][1]) != (u[0], u[1]): raise Bad("in_shape[0] is not the user's input layout")
    u = info(m, m.boxes.f["out"], "output boxes")
    if (O[3][0], O[3][1]) != (u[0], u[1]): raise Bad("out_shape[3] is not the user's output layout")
    for i in range(3):
        W = m.WIN if i == 0 else m.WOUT
        if O[i][0][dirs[i]] != W[dirs[i]]: raise Bad("stage %d transforms axis %d but ranks hold %s..%s of %s..%s" % (i, dirs[i], *map(txt, O[i][0][dirs[i]] + W[dirs[i]])))
        if cfg.reorder and O[i][1][0] != dirs[i]: raise Bad("stage %d transforms axis %d which is not contiguous (order %s)" % (i, dirs[i], O[i][1]))
        want = [(m.WOUT[d] if i == 0 and d == cfg.r2c else O[i][0][d]) for d in range(3)]
        if I[i + 1][0] != want: raise Bad("in_shape[%d] is %s, the result of stage %d is %s" % (i + 1, txt(I[i + 1][0]), i, txt(want)))
        if I[i + 1][1] != O[i][1]: raise Bad("in_shape[%d] has memory order %s, stage %d leaves %s" % (i + 1, I[i + 1][1], i, O[i][1]))
    n = [b - a + 1 for a, b in m.WIN]
    if P(plan.f["index_count"]) != n[0] * n[1] * n[2]: raise Bad("index_count is %s" % txt(plan.f["index_count"]))
    if [P(x) for x in plan.f["fft_sizes"].el] != n: raise Bad("fft_sizes is %s" % txt(plan.f["fft_sizes"]))
    if not veq(plan.f["options"], m.opts): raise Bad("plan.options is %s" % txt(plan.f["options"]))
    if P(plan.f["mpi_rank"]) != P(T("sym", "me")): raise Bad("plan.mpi_rank is %s" % txt(plan.f["mpi_rank"]))
def say(m):
    return ", ".join("%s%s complete in axis %d" % (b.name, "" if v else " not", d) for (b, d), v in sorted(m.keys.items(), key=lambda x: (x[0][0].name, x[0][1])) if b.name in ("in", "out"))
def one(ctx, p, f, cfg):
    good = 0; bad = {}; prev = -1
    for m, plan, script in explore(p, f, cfg):
        ctx.absorb(m)
        try:
            if m.st.dead: raise Bad("planning fails (error or failed assertion)")
            judge(m, plan, cfg); good += 1
            ctx.ok("plan (%s), path %d" % (cfg, good))
        except Bad as e: bad.setdefault(str(e), say(m))
    for e, w in list(bad.items())[:4]: ctx.check(False, "plan (%s) when %s" % (cfg, w or "nothing is aligned"), e, (f["file"], f["line"]))
    ctx.check(good > 0, "plan (%s): transforms every axis once on complete lines, layouts chain and cover the index space" % cfg, "", (f["file"], f["line"]))
# --------------------------------------------------------------------------- the planner's input
def gather(ctx, p, f, np=3):
    """every rank learns the boxes of all ranks"""
    def ag(m, fn, this, a, n):
        v = m.snap(a, fn); src = reads(m, v[0]); dst = m.st.s.get(v[3].base) if isinstance(v[3], Ptr) else None
        if not isinstance(dst, VElems) or not src or len(dst.el) != np * len(src): raise Bad("each rank contributes %s, %s boxes are received from %d ranks" % (src, len(dst.el) if isinstance(dst, VElems) else "?", np))
        new = []
        for r in range(np):
            for x in src:
                if not isinstance(x, Obj) or x.f: raise Bad("contributes %s" % txt(x))
                new.append(Obj(x.rec, {}, T("of", x.base, P(r))))
        m.st.s[v[3].base] = VElems(dst.et, dst.es, tuple(new))
        return P(0)
    def reads(m, x):
        w = m.st.s.get(x.base) if isinstance(x, Ptr) else None
        if isinstance(w, Obj) and not w.f.keys() & {"low"} and w.base is None and len(w.f) == 1: w = list(w.f.values())[0]
        if isinstance(w, Vec) and hasattr(w, "el"): return list(w.el)
        return [w] if isinstance(w, Obj) else None
    m = machine(p, {"heffte::mpi::comm_size": lambda m, fn, this, a, n: P(np), "MPI_Allgather": ag}); name = "gather_boxes"; loc = (f["file"], f["line"])
    try:
        r = call(m, f, {}); ctx.absorb(m)
        for k, q in (("in", 0), ("out", 1)):
            v = r.f.get(k) if isinstance(r, Obj) else None
            el = list(getattr(v, "el", [])); w = [T("of", T("sym", f["params"][q]["n"]), P(i)) for i in range(np)]
            ctx.check([x.base if isinstance(x, Obj) and not x.f else None for x in el] == w, name + ": entry i of '%s' is the %sbox of rank i" % (k, k), "is %s" % (el,), loc)
    except Bad as e: ctx.check(False, name, str(e), loc)
def inputs(ctx, p, c):
    """the planner gets the boxes, the direction and the rank the user gave"""
    b = planobj.built(p, c); ctx.absorb(b.m); loc = (c["file"], c["line"]); be = planobj.backend_of(p, c)
    name = "%s<%s>, constructor with %d parameters" % (planobj.short(p, c).split("<")[0], be, len(c["params"])); r2c = "r2c" in p.recs[c["cls"]]["q"].split("<")[0]
    kinds = [p.types[x["t"]] for x in c["params"]]; kinds = [p.types[t["el"]] if t["k"] == "ref" else t for t in kinds]
    boxes = [i for i, t in enumerate(kinds) if t["k"] == "rec" and normq(p.recs[t["rec"]]["q"]) == "heffte::box3d"]
    N = lambda i: T("sym", c["params"][i]["n"])
    ci = [i for i, t in enumerate(kinds) if t["k"] == "ptr" and "communicator" in t.get("s", "") + str(p.types[c["params"][i]["t"]].get("s")) or c["params"][i]["n"] == "comm"]
    if len(ci) != 1: raise AnchorMissing("communicator parameter of " + name)
    ci = ci[0]; ga = [e.e for e in b.effs if e.e.kind == "gather" and e.g is not FALSE]; rk = [e.e for e in b.effs if e.e.kind == "rank" and e.g is not FALSE]
    if not ctx.check(len(ga) == 1 and len(b.plans) == 1, name + ": gathers the boxes and plans once", "%d times, %d plans" % (len(ga), len(b.plans)), loc): return
    got = ga[0].d["args"]
    if len(boxes) == 2:
        for k, w in zip((0, 1), boxes): ctx.check(isinstance(got[k], Obj) and got[k].base is N(w) and not got[k].f, name + ": the %s layout is the user's" % ("input", "output")[k], "is %s" % (got[k],), loc)
    else:
        ints = ci - (1 if r2c else 0); per = ints // 2
        if ints not in (12, 18): raise AnchorMissing("parameters of " + name)
        for k in (0, 1):
            o = got[k]
            for j, fd in enumerate(("low", "high", "order")):
                v = [P(x) for x in o.f[fd].el] if isinstance(o, Obj) and fd in o.f else None
                w = [P(N(k * per + 3 * j + d)) for d in range(3)] if 3 * j < per else [P(0), P(1), P(2)]
                ctx.check(v == w, name + ": '%s' of the %s box is the user's" % (fd, ("input", "output")[k]), "is %s" % txt(v), loc)
    hc = lambda x: isinstance(x, Ptr) and x.base is N(ci)
    ctx.check(hc(got[2]) and all(hc(x.d["args"][0]) for x in rk) and len(rk) > 0, name + ": boxes and rank refer to the user's communicator", "%s" % ([got[2]] + [x.d["args"] for x in rk],), loc)
    pl = b.plans[0]
    ctx.check(P(pl[1]) == (P(N(ci - 1)) if r2c else P(-1)), name + ": the real-to-complex direction is %s" % ("the user's" if r2c else "none"), "is %s" % txt(pl[1]), loc)
    ctx.check(isinstance(pl[0], Obj) and show(pl[0].base) == "world" and not pl[0].f, name + ": the planner gets the gathered boxes", "gets %s" % (pl[0],), loc)
def run(ctx):
    ctx.rules = ["the planner gets the boxes of every rank, the r2c direction and the rank of the user's communicator", "transform directions are a permutation, r2c axis first", "out_shape[i] holds complete lines of direction i on every rank; with reordering they are contiguous",
                 "in_shape[0]/out_shape[3] are the user's layouts; in_shape[i+1] is out_shape[i] (reduced along the r2c axis after stage 0)",
                 "every layout is a disjoint cover of the (reduced) index space", "fft_sizes, index_count, options and rank describe the user's problem"]
    ctx.assumptions = ["split_world tiles its world and maximize_overlap permutes the tiles (P23)", "ranks hold non-empty boxes in the user's layouts (empty boxes satisfy each requirement vacuously)"]
    p = unit("src/heffte_plan_logic.cpp", "planlogic")
    fs = fns(p, "heffte::plan_operations")
    if len(fs) < 2: raise AnchorMissing("plan_operations")
    f = fs[0]
    pm = program("int"); its = [("plan", c) for c in configs(ctx.tier)]
    gs = fns(pm, "heffte::mpi::gather_boxes"); cs = [c for c in planobj.ctors(pm) if planobj.delegates(c)]
    if not gs or not cs: raise AnchorMissing("gather_boxes, constructors")
    its += [("gather", g) for g in gs] + [("ctor", c) for c in cs]
    ctx.parallel(its, lambda ctx, it: one(ctx, p, f, it[1]) if it[0] == "plan" else gather(ctx, pm, it[1]) if it[0] == "gather" else inputs(ctx, pm, it[1]))
