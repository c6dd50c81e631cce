"""P02: redistribution plans."""
from reshape import *
import reshape
TITLE = "Redistribution plans describe exactly the overlap of the two layouts"
TECHNIQUE = "value-flow analysis of plan construction and execution; equality with the overlap specification"

def entry_obligations(ctx, p, c):
    t = get_trace(p, c); ctx.absorb(t.m)
    name = cname(c)
    make_obligations(ctx, t, name)
    if t.null: return
    loc = (t.apply["file"], t.apply["line"])
    ps = pks(t)
    bad = [x for x in ps if x.err]
    ctx.check(not bad, name + ": every pack/unpack uses the plan of one overlap of this rank's box", "; ".join(x.err for x in bad[:3]), bad[0].loc if bad else loc)
    if bad: return
    for op in ("pack", "unpack"):
        xs = [x for x in ps if x.op == op]
        ok, why = cover(t, c[0], xs) if xs else cover_none(t, c[0], op)
        ctx.check(ok, name + ": %s for every overlapping rank exactly once" % op, why, xs[0].loc if xs else loc)
        for x in xs:
            tr = op == "unpack" and c[2] == "transpose_packer"
            own = vec_get(t.boxes[0 if op == "pack" else 1], t.me)
            other = vec_get(t.boxes[1 if op == "pack" else 0], x.v)
            ov = t.L.overlap(t.m, own, other)
            off, cnt, d = plan_spec(t.m, own, other, ov, tr)
            who = "the rank itself" if x.v is t.me else "a peer"
            probs = []
            for k, w in d.items():
                got = x.fields[k]
                if isinstance(got, VElems): same = len(got.el) == len(w) and all(under(x.fl.g, a) is under(x.fl.g, b) for a, b in zip(got.el, w))
                elif isinstance(w, list): same = False
                else: same = isinstance(got, Poly) and under(x.fl.g, got) is under(x.fl.g, w)
                if not same: probs.append("%s is %s, required %s" % (k, show_any(got), show_any(w)))
            mem = t.SRC if op == "pack" else t.DST
            bc = P(T("boxcount", own.base))
            want = (off + x.j * bc) * t.es
            if not isinstance(x.user, Ptr) or x.user.base is not mem: probs.append("the user buffer is %s" % (x.user,))
            elif under(x.fl.g, x.user.off) is not under(x.fl.g, want): probs.append("the user array offset is %s, required %s" % (show(x.user.off), show(want)))
            if x.es != t.es: probs.append("element size %s" % x.es)
            if x.cls + "_packer" != c[2]: probs.append("packer " + x.cls)
            ctx.check(not probs, name + ": %s for %s moves the overlap block of every batch entry" % (op, who), "; ".join(probs), x.loc)

def show_any(x):
    if isinstance(x, (list, tuple)): return "[" + ", ".join(show(y) for y in x) + "]"
    if isinstance(x, VElems): return "[" + ", ".join(show(y) if isinstance(y, (Poly, BD)) else repr(y) for y in x.el) + "]"
    return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
def cover_none(t, which, op):
    if t.case.get("group") == "empty": return True, ""
    need = t.case["selfcomm"] or t.case["send" if op == "pack" else "recv"]
    return not need, "no %s at all" % op

def builder_obligations(ctx, p, q, index, a, b):
    """compute_overlap_map_*: the four lists describe the overlaps with all ranks, each rank once, the rank itself last"""
    f = [f for f in fns(p, "heffte::" + q) if (f.get("ta") or [""])[0] == index]
    if not f: raise AnchorMissing(q)
    f = f[0]
    L = Layouts(p, index, a, b); m = L.m; m.hooks.pop("heffte::" + q, None)
    bt = m.ty(m.ty(f["params"][3]["t"])["el"])
    own = L.boxes(m, bt, "INB", a); oth = L.boxes(m, bt, "OUTB", b)
    src = vec_get(own, P(L.me)); outs = {}
    args = {0: P(L.me), 1: P(L.np), 2: src, 3: m.temp(oth)}
    for k in (4, 5, 6, 7):
        et = m.eltype(m.ty(m.ty(f["params"][k]["t"])["el"]))
        args[k] = outs[k] = m.temp(VElems(et, m.size(et), []))
    call(m, f, args); ctx.absorb(m)
    name = "%s<%s> order %s->%s" % (q, index, "".join(map(str, a)), "".join(map(str, b)))
    loc = (f["file"], f["line"])
    tr = "transpose" in q
    ents = {}
    for k in (4, 5, 6, 7):
        v = m.read(outs[k]); es = seq_entries(v) if isinstance(v, Vec) else None
        ok = bool(es) and all(len(l) == 1 for l, g, x in es)
        if not ctx.check(ok, name + ": %s is a list with one conditional entry per rank" % f["params"][k]["n"], repr(v), loc): return
        ents[k] = es
    parts = [(l[0][0], l[0][1], x) for l, g, x in ents[4]]
    ctx.check(all(isinstance(x, Poly) for _, _, x in parts) and covers_ranks(parts, P(L.np), P(L.me)), name + ": all ranks are considered once, the rank itself last",
              "; ".join("%s for %s<%s" % (show_any(x), show(n), show(N)) for n, N, x in parts), loc)
    for k, what in ((4, "peer"), (5, "offset"), (6, "count"), (7, "packing plan")):
        probs = []
        if len(ents[k]) != len(ents[4]): probs.append("%d entries" % len(ents[k]))
        for (l, g, x), (l4, g4, q4) in zip(ents[k], ents[4]):
            ren = {l[0][0]: P(l4[0][0])}
            if l[0][1] is not l4[0][1]: probs.append("enumerates %s" % show(l[0][1])); continue
            g = subst(g, ren); x = subst(x, ren)
            other = vec_get(oth, q4); ov = L.overlap(m, src, other)
            ne = bnot(batom(T("ovempty", *pair_terms(src.base, other.base))))
            if g is not ne: probs.append("entered when %s" % show(g))
            off, cnt, d = plan_spec(m, src, other, ov, tr)
            if k == 4: pass
            elif k < 7:
                w = off if k == 5 else cnt
                if under(ne, x) is not w: probs.append("%s instead of %s" % (show_any(x), show(w)))
            else:
                fl = L.planfields(m, x)
                if fl is None: probs.append(repr(x)); continue
                for kk, w in d.items():
                    got = fl[kk]
                    ok = (isinstance(got, VElems) and len(got.el) == len(w) and all(under(ne, u) is v for u, v in zip(got.el, w))) if isinstance(w, list) else under(ne, got) is w
                    if not ok: probs.append("%s is %s instead of %s" % (kk, show_any(got), show_any(w)))
        ctx.check(not probs, name + ": the %s list describes the overlap with each rank" % what, "; ".join(probs[:4]), loc)
def count_obligations(ctx, p, index):
    for f in fns(p, "heffte::count_collisions"):
        if f["ta"][0] != index: continue
        L = Layouts(p, index, (0, 1, 2), (0, 1, 2)); m = L.m; m.hooks.pop("heffte::count_collisions")
        bt = m.ty(m.ty(f["params"][0]["t"])["el"])
        own = L.boxes(m, bt, "INB", (0, 1, 2)); oth = L.boxes(m, bt, "OUTB", (0, 1, 2))
        r = call(m, f, {0: m.temp(oth), 1: vec_get(own, P(L.me))}); ctx.absorb(m)
        n = fresh_index("n")
        want = psum(bd_poly(bnot(batom(T("ovempty", *pair_terms(T("idx", T("sym", "INB"), P(L.me)), T("idx", T("sym", "OUTB"), P(n))))))), n, P(L.np))
        ctx.check(same(r, want), "count_collisions<%s>: counts the boxes that overlap" % index, "result %s instead of %s" % (show_any(r), show(want)), (f["file"], f["line"]))
        return
    raise AnchorMissing("count_collisions")
def make_obligations(ctx, t, name):
    loc = (t.f["file"], t.f["line"])
    if t.which == "pointtopoint":
        ctx.check(not t.null, name + ": a redistribution object is always created", "", loc); return
    ctx.check(t.null == (t.case["group"] == "empty"), name + ": no object is created exactly when the rank exchanges no data", "null=%s" % t.null, loc)
    ga = getattr(t.L, "group_args", None)
    if ga is None: raise AnchorMissing("a2a_group is not called")
    ok = vecname(ga[2]) is T("sym", "INB") and vecname(ga[3]) is T("sym", "OUTB")
    Si, So = sides(t)
    seeds = []
    for v, S, bx in ((ga[0], Si, "INB"), (ga[1], So, "OUTB")):
        if isinstance(v, VFn) and isinstance(v.body, Poly):
            at = v.body.atom_term()
            seeds.append(v.size is npeers(S) and (v.body is t.me or (at is not None and at.op == "peer" and at.args[0] is S)) or v.body is mk_peer(S, P(v.n)) and v.size is npeers(S))
        else:
            es = seq_entries(v) if isinstance(v, Vec) else None
            seeds.append(es is not None and all(x is t.me or x.atom_term() is not None and x.atom_term().op == "peer" and x.atom_term().args[0] is S for l, g, x in es if g is not FALSE)
                         and (bool(es) or not t.L.nonempty(S)) and all(g is TRUE or g is bnot(batom(T("boxempty", T("idx", T("sym", bx), t.me)))) for l, g, x in es))
    ctx.check(ok and all(seeds), name + ": the communicating group grows from this rank's own exchange", "seeds %s %s" % (ga[0], ga[1]), loc)

def dispatch_obligations(ctx, p, f, a, b):
    t = dispatch(p, f, a, b); ctx.absorb(t.m); m = t.m
    name = "make_reshape3d<%s,%s> order %s->%s" % (f["ta"][0].split("::")[-1], f["ta"][1], "".join(map(str, a)), "".join(map(str, b)))
    loc = (f["file"], f["line"])
    M = batom(T("match"))
    ok = t.match_args and all(len(x) == 2 and {str(vecname(x[0])), str(vecname(x[1]))} == {"INB", "OUTB"} for x in t.match_args)
    if not t.match_args: raise AnchorMissing("make_reshape3d does not compare the layouts")
    ctx.check(ok, name + ": compares the input with the output layout", str(t.match_args[:1]), loc)
    packer = "heffte::direct_packer" if a == b else "heffte::transpose_packer"
    seen = FALSE
    for g, v in alts(t.ret):
        if implies(g, M):
            if v is NULL or (isinstance(v, Ptr) and v.base.op == "null"):
                e = batom(T("ovempty", *pair_terms(T("idx", T("sym", "INB"), t.me), T("idx", T("sym", "OUTB"), t.me))))
                ctx.check(a == b or implies(g, e), name + ": nothing is skipped unless the layouts are identical", "returns no redistribution when %s" % show(g), loc)
            else:
                ctx.check(a != b, name + ": identical layouts need no redistribution", "returns %r when %s" % (v, show(g)), loc)
                transpose_obligations(ctx, p, t, v, g, name, a, b)
        elif implies(g, bnot(M)):
            es = [e for e in t.effs if e.e.kind == "mk" and isinstance(v, Ptr) and v.base is T("heap", "made", "heffte::" + e.e.d["q"].split("::")[-1]) and e.g is g]
            ok = len(es) == 1
            why = "%d factory calls" % len(es)
            if ok:
                d = es[0].e.d; vs = [vecname(x) for x in d["args"]]
                vs = [str(x) for x in vs if x is not None]
                ok = vs == ["INB", "OUTB"] and d["ta"][1] == packer
                why = "calls %s with packer %s and layouts %s" % (d["q"], d["ta"][1], vs)
            ctx.check(ok, name + ": different layouts are redistributed from the input to the output layout with the right packer", why, loc)
        else:
            ctx.check(False, name + ": the choice depends on whether the layouts match", "%r when %s" % (v, show(g)), loc)
def transpose_obligations(ctx, p, t, v, g, name, a, b):
    m = t.m
    loc = (t.f["file"], t.f["line"])
    if not isinstance(v, Ptr): ctx.check(False, name + ": local transposition object", repr(v), loc); return
    rec = [e.e.d["rec"] for e in t.effs if e.e.kind == "new" and e.e.d["ptr"] == v]
    if not rec: raise AnchorMissing("local transposition")
    fs = [x for x in fns(p, "heffte::reshape3d_transpose::apply") if x["cls"] == rec[0]]
    if len(fs) != 4: raise AnchorMissing("reshape3d_transpose::apply")
    for x in fs[3:] if (a, b) != ((0, 1, 2), (1, 2, 0)) else fs:
        for inplace in (False, True):
            m.rec = []
            batch = T("sym", "batch_size"); mark_nonneg(batch)
            S = T("sym", "source"); D = S if inplace else T("sym", "destination"); W = T("sym", "workspace")
            m.distinct = {S, D, W}
            saved = m.facts; m.facts = m.facts + [P(batch)]
            g0 = m.st.g; m.st.g = band(g0, g)
            call(m, x, {0: P(batch), 1: Ptr(S, (), ZERO), 2: Ptr(D, (), ZERO), 3: Ptr(W, (), ZERO)}, this=LV(v.base, v.path))
            m.st.g = g0; m.facts = saved
            fl = flatten(m.rec); m.rec = []
            es = SCALARS[scalar_of(m, x)]
            own = vec_get(t.boxes[1], t.me); other = vec_get(t.boxes[0], t.me)
            ov = t.L.overlap(m, own, other)
            off, cnt, d = plan_spec(m, own, other, ov, True)
            nm = "%s: %s transposition of %s" % (name, "in-place" if inplace else "out-of-place", scalar_of(m, x))
            probs = []
            pk = [(i, e) for i, e in enumerate(fl) if e.e.kind == "pk"]
            rest = [(i, e) for i, e in enumerate(fl) if e.e.kind in ("write", "copy")]
            if len(pk) != 1: probs.append("%d pack/unpack sites" % len(pk))
            else:
                i0, e = pk[0]
                dd = e.e.d
                un = lambda q: under(g, q)
                if dd["op"] != "unpack" or dd["cls"] != "transpose": probs.append("uses %s::%s" % (dd["cls"], dd["op"]))
                for k, w in d.items():
                    got = dd["fields"][k]
                    okk = all(un(u) is w_ for u, w_ in zip(got.el, w)) if isinstance(w, list) else un(got) is w
                    if not okk: probs.append("%s is %s instead of %s" % (k, show_any(got), show_any(w)))
                if len(e.loops) != 1 or e.loops[0][1] is not P(batch) or not implies(g, e.g): probs.append("runs for %s" % [(show(n), show(N)) for n, N in e.loops])
                else:
                    j = P(e.loops[0][0])
                    bx = [cnt, P(T("boxcount", own.base)), P(T("boxcount", other.base))]
                    want = [un(j * c * es) for c in bx]
                    so, do = dd["src"], dd["dst"]
                    if un(so.off) not in want or un(do.off) not in want or so.base is not (W if inplace else S) or do.base is not D:
                        probs.append("moves from %s to %s for batch entry %s" % (so, do, show(j)))
            if inplace:
                cp = [e for i, e in rest if pk and i < pk[0][0]]
                if not copied(cp, S, W, batch, es, cnt, m, g, own, other): probs.append("the input is not saved to the work space first: %s" % cp[:2])
                if len(cp) != len(rest): probs.append("other writes")
            elif rest: probs.append("other writes: %s" % rest[:2])
            ctx.check(not probs, nm + " moves every element of every batch entry", "; ".join(probs), (x["file"], x["line"]))
def copied(cp, S, W, batch, es, cnt, m, g, own, other):
    """the effects copy batch*count elements from S to W"""
    if len(cp) != 1: return False
    e = cp[0]; d = e.e.d
    if not implies(g, e.g): return False
    tot = [under(g, P(batch) * c) for c in (cnt, P(T("boxcount", own.base)), P(T("boxcount", other.base)))]
    if e.e.kind == "write" and len(e.loops) == 1:
        n, N = e.loops[0]
        v = d["val"]
        return d["mem"] is W and d["size"] == es and d["off"] is P(n) * es and isinstance(v, Poly) and v is P(T("load", S, P(n) * es, es)) and under(g, N) in tot
    return False

def match_obligations(ctx, p):
    fs = fns(p, "heffte::match")
    if not fs: raise AnchorMissing("match")
    for f in fs:
        L = Layouts(p, f["ta"][0], (0, 1, 2), (0, 1, 2)); m = L.m
        bt = m.ty(m.ty(f["params"][0]["t"])["el"])
        x = L.boxes(m, bt, "INB", (0, 1, 2)); y = L.boxes(m, bt, "OUTB", (1, 2, 0))
        r = call(m, f, {0: m.temp(x), 1: m.temp(y)}); ctx.absorb(m)
        n = fresh_index("n")
        a, b = vec_get(x, P(n)), vec_get(y, P(n))
        d = bor(*[bnot(beq(u, v)) for k in ("low", "high") for u, v in zip(m.objfield(a, k).el, m.objfield(b, k).el)])
        want = bnot(exists(d, n, P(L.np)))
        ctx.check(same(r, want), "match<%s>: two layouts match exactly when the boxes of all ranks are equal" % f["ta"][0], "result %s" % show_any(r), (f["file"], f["line"]))

def run(ctx):
    ctx.rules = ["every pack/unpack effect of a redistribution uses offset, extents, strides and axis map of the overlap of this rank's box with exactly one peer's box; the peers are enumerated exactly once"]
    p = program("int")
    jobs = [("t", c) for c in configs(ctx.tier) + [(w, None, "direct_packer", i, "double", (0, 1, 2), (0, 1, 2), dict(group="empty")) for w in ("alltoall", "alltoallv") for i in ("int", "long long")]]
    for index in ("int", "long long"):
        for q in ("compute_overlap_map_direct_pack", "compute_overlap_map_transpose_pack"):
            for a in PERMS:
                for b in (PERMS if "transpose" in q else (a,)): jobs.append(("b", (q, index, a, b)))
        jobs.append(("c", index))
    for f in fns(p, "heffte::make_reshape3d"):
        for a in PERMS:
            for b in (PERMS if f["ta"][0].endswith("::fftw") else ((0, 1, 2), (1, 2, 0))): jobs.append(("d", (f, a, b)))
    match_obligations(ctx, p)
    def one(ctx, j):
        if j[0] == "t": entry_obligations(ctx, p, j[1])
        elif j[0] == "b": builder_obligations(ctx, p, *j[1])
        elif j[0] == "d": dispatch_obligations(ctx, p, *j[1])
        else: count_obligations(ctx, p, j[1])
    ctx.parallel(jobs, one)
