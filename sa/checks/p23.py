"""P23: box algebra, world splitting, process grids and box assignment are exact."""
from harness import *
from cases import *
from values import *
import itertools
TITLE = "Domain decomposition covers the index space exactly once"
TECHNIQUE = "symbolic evaluation of the geometry routines with case analysis over linear facts (tiling, permutation and product identities); narrowing-conversion lint"
NOTE = "splitting is proved for every world and grid; assignment of boxes to ranks, grid choice and validation are proved for up to three boxes / candidate grids with arbitrary contents"
G = "heffte::"
def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
def arr(m, t, xs): return VElems(m.eltype(m.strip(t)), m.size(m.eltype(m.strip(t))), [P(x) for x in xs])
def mkbox(m, rec, low, high, order=(0, 1, 2), size=None):
    ft = {n: x["t"] for n, x in m.fields(rec).items()}
    return Obj(rec, {"low": arr(m, ft["low"], low), "high": arr(m, ft["high"], high), "size": arr(m, ft["size"], size or [h - l + 1 for l, h in zip(low, high)]), "order": arr(m, ft["order"], order)})
def symbox(m, rec, name, order=(0, 1, 2)):
    low = [P(T("sym", "%s.low%d" % (name, d))) for d in range(3)]; sz = [P(T("sym", "%s.size%d" % (name, d))) for d in range(3)]
    return mkbox(m, rec, low, [l + s - 1 for l, s in zip(low, sz)], order, sz)
def F(o, k): return [P(x) for x in o.f[k].el]
def alts(v): return v.alts if isinstance(v, GV) else [(TRUE, v)]
def boxrecs(p): return sorted({f["cls"] for f in fns(p, G + "box3d::count")})
def is_empty_box(o, facts):
    """some size is <= 0 whatever the case"""
    return any(prove_ge0(-s, facts) for s in F(o, "size"))
# --------------------------------------------------------------------------- box queries
def box(ctx, p, rec):
    def meth(n):
        f = [x for x in fns(p, G + "box3d::" + n) if x["cls"] == rec]
        return f[0] if f else None
    T_ = p.recs[rec]["ta"][0]
    def nm(s): return "box3d<%s>::%s" % (T_, s)
    # constructors
    for f in fns(p, G + "box3d::box3d"):
        if f["cls"] != rec or len(f["params"]) < 2: continue
        m = machine(p); low = [P(T("sym", "a%d" % d)) for d in range(3)]; high = [P(T("sym", "b%d" % d)) for d in range(3)]
        n = m.arrlen(m.strip(f["params"][0]["t"]))
        args = {0: arr(m, f["params"][0]["t"], low[:n]), 1: arr(m, f["params"][1]["t"], high[:n])}
        order = [0, 1, 2]
        if len(f["params"]) > 2:
            order = [2, 0, 1] if n == 3 else [1, 0, 2]
            args[2] = arr(m, f["params"][2]["t"], order[:n])
        this = this_obj(m, rec); m.st.s[this.base] = Obj(rec, {}, None)
        call(m, f, args, this=this); o = m.st.s[this.base]; ctx.absorb(m)
        if n == 2: low[2] = high[2] = ZERO
        for k, want in (("low", low), ("high", high), ("size", [b - a + 1 for a, b in zip(low, high)]), ("order", [P(x) for x in order])):
            got = F(o, k) if isinstance(o.f.get(k), VElems) else None
            ctx.check(got == want, nm("box3d(%d arguments, %d-D): %s" % (len(f["params"]), n, k)), "gives %s" % txt(got), (f["file"], f["line"]))
    # queries, for non-empty boxes and for boxes empty in one axis
    for e in (None, 0, 1, 2):
        def mach():
            m = machine(p); b = symbox(m, rec, "a", (2, 0, 1)); s = F(b, "size")
            for d in range(3): m.facts.append(-s[d] if d == e else s[d] - 1)
            return m, b, s
        tag = " of a non-empty box" if e is None else " of a box empty in axis %d" % e
        f = meth("empty")
        if f:
            m, b, s = mach(); r = call(m, f, {}, this=m.temp(b)); r = m.decide(m.boolean(r))
            ctx.check(r is (FALSE if e is None else TRUE), nm("empty()") + tag, "is %s" % txt(r), (f["file"], f["line"])); ctx.absorb(m)
        f = meth("count")
        if f:
            m, b, s = mach(); r = P(call(m, f, {}, this=m.temp(b)))
            ctx.check(prove_eq0(r - (s[0] * s[1] * s[2] if e is None else ZERO), m.facts), nm("count()") + tag, "is %s" % txt(r), (f["file"], f["line"])); ctx.absorb(m)
        f = meth("r2c")
        if f:
            for d in range(3):
                m, b, s = mach(); r = call(m, f, {0: P(d)}, this=m.temp(b)); ctx.absorb(m)
                name = nm("r2c(%d)" % d) + tag
                for g, o in alts(r):
                    if not consistent(m.facts): continue
                    if m.decide(g) is FALSE: continue
                    if e is not None: ctx.check(is_empty_box(o, m.facts), name + " is empty", "size %s" % txt(F(o, "size")), (f["file"], f["line"])); continue
                    lo, hi = F(b, "low"), F(b, "high"); hi = [lo[d] + fdiv(s[d], 2) if i == d else hi[i] for i in range(3)]
                    ok = all(prove_eq0(x - y, m.facts) for k, w in (("low", lo), ("high", hi), ("size", [y - x + 1 for x, y in zip(lo, hi)])) for x, y in zip(F(o, k), w))
                    ctx.check(ok and F(o, "order") == [P(2), ZERO, ONE], name + " halves the axis and keeps everything else", "gives %s" % txt(o), (f["file"], f["line"]))
        f = meth("collide")
        if f:
            for e2 in (None, 0, 1, 2):
                m, b, s = mach(); c = symbox(m, rec, "b"); s2 = F(c, "size")
                for d in range(3): m.facts.append(-s2[d] if d == e2 else s2[d] - 1)
                r = call(m, f, {0: c}, this=m.temp(b)); ctx.absorb(m)
                name = nm("collide()") + tag + (" and a non-empty box" if e2 is None else " and a box empty in axis %d" % e2)
                for g, o in alts(r):
                    if m.decide(g) is FALSE: continue
                    if e is not None or e2 is not None: ctx.check(is_empty_box(o, m.facts), name + " is empty", "size %s" % txt(F(o, "size")), (f["file"], f["line"])); continue
                    ok = True
                    for i in range(3):
                        a0, a1, b0, b1 = F(b, "low")[i], F(b, "high")[i], F(c, "low")[i], F(c, "high")[i]; l, h, z = F(o, "low")[i], F(o, "high")[i], F(o, "size")[i]
                        ok = ok and prove_ge0(l - a0, m.facts) and prove_ge0(l - b0, m.facts) and prove_ge0(a1 - h, m.facts) and prove_ge0(b1 - h, m.facts) and prove_eq0(z - (h - l + 1), m.facts)
                        # the largest such range: each end is one of the two ends
                        ok = ok and all(any(dom.fm_entails(fs, ys[0] - q) and dom.fm_entails(fs, q - ys[0]) for q in (a0, b0)) for fs, ys in cases([l], m.facts))
                        ok = ok and all(any(dom.fm_entails(fs, ys[0] - q) and dom.fm_entails(fs, q - ys[0]) for q in (a1, b1)) for fs, ys in cases([h], m.facts))
                    ctx.check(ok and F(o, "order") == F(b, "order"), name + " is the common range in this box's order", "gives %s" % txt(o), (f["file"], f["line"]))
    for n in ("operator==", "operator!="):
        f = meth(n)
        if f:
            m = machine(p); b, c = symbox(m, rec, "a"), symbox(m, rec, "b", (1, 0, 2)); r = m.boolean(call(m, f, {0: c}, this=m.temp(b))); ctx.absorb(m)
            same_ = TRUE
            for k in ("low", "high"):
                for x, y in zip(F(b, k), F(c, k)): same_ = band(same_, eq0(x - y))
            ctx.check(r is (same_ if n == "operator==" else bnot(same_)), nm(n) + " compares all ends of the ranges", "is %s" % txt(r), (f["file"], f["line"]))
    f = meth("ordered_same_as")
    if f:
        for o in itertools.permutations(range(3)):
            for q in itertools.permutations(range(3)):
                m = machine(p); r = m.boolean(call(m, f, {0: symbox(m, rec, "b", q)}, this=m.temp(symbox(m, rec, "a", o))))
                ctx.check(r is (TRUE if o == q else FALSE), nm("ordered_same_as") + " %s %s" % (o, q), "is %s" % txt(r), (f["file"], f["line"]))
    for n in ("find_order", "osize"):
        f = meth(n)
        if not f: continue
        for o in itertools.permutations(range(3)):
            for d in range(3):
                m = machine(p); b = symbox(m, rec, "a", o); r = P(call(m, f, {0: P(d)}, this=m.temp(b)))
                want = P(o.index(d)) if n == "find_order" else F(b, "size")[o[d]]
                ctx.check(r == want, nm(n) + "(%d) for order %s" % (d, o), "is %s" % txt(r), (f["file"], f["line"]))
    f = meth("is2d")
    if f:
        m = machine(p); b = symbox(m, rec, "a"); r = m.boolean(call(m, f, {}, this=m.temp(b))); s = F(b, "size")
        ctx.check(r is bor(*[eq0(x - 1) for x in s]), nm("is2d()"), "is %s" % txt(r), (f["file"], f["line"]))
# --------------------------------------------------------------------------- worlds
def boxvec(m, vt, n, orders=None):
    et = m.eltype(m.strip(vt)); rec = m.strip(et)["rec"]
    return VElems(et, m.size(et), [symbox(m, rec, "x%d" % i, (orders or [(0, 1, 2)] * n)[i]) for i in range(n)])
def world(ctx, p, f):
    for n in (1, 2, 3):
        m = machine(p); v = boxvec(m, m.ty(f["params"][0]["t"])["el"], n); r = call(m, f, {0: v}); ctx.absorb(m)
        name = "find_world<%s> of %d boxes" % (p.recs[m.strip(f["ret"])["rec"]]["ta"][0], n); loc = (f["file"], f["line"])
        for k, s in (("low", 1), ("high", -1)):
            for d in range(3):
                q = F(r, k)[d]; xs = [F(b, k)[d] for b in v.el]
                ok = all(prove_ge0((x - q) * s, []) for x in xs) and all(any(dom.fm_entails(fs, ys[0] - x) and dom.fm_entails(fs, x - ys[0]) for x in xs) for fs, ys in cases([q], []))
                ctx.check(ok, name + ": %s end of axis %d is the extreme of the boxes" % (k, d), "is %s" % txt(q), loc)
        ctx.check(F(r, "size") == [b - a + 1 for a, b in zip(F(r, "low"), F(r, "high"))], name + ": size", "", loc)
def split_args(m, f, g=None):
    """world of g*q+r indexes per axis starting anywhere, with 0<=r<g"""
    wt = m.strip(f["params"][0]["t"]); rec = wt["rec"]
    L = [P(T("sym", "L%d" % d)) for d in range(3)]; q = [P(T("sym", "q%d" % d)) for d in range(3)]; r = [P(T("sym", "r%d" % d)) for d in range(3)]
    gs = [P(g[d]) if g else P(T("sym", "g%d" % d)) for d in range(3)]
    facts = []
    for d in range(3):
        for x in (q[d], r[d]): mark_nonneg(x.atom() if hasattr(x, "atom") else [Term._byid[a] for a in x.atoms()][0])
        if not g: mark_nonneg([Term._byid[a] for a in gs[d].atoms()][0])
        facts += [q[d], r[d], gs[d] - 1 - r[d], gs[d] - 1]
    w = mkbox(m, rec, L, [L[d] + gs[d] * q[d] + r[d] - 1 for d in range(3)], (1, 2, 0))
    def fix(x):
        """the quotient size/grid is q by the definition of division"""
        mm = {}
        for d in range(3):
            n = gs[d] * q[d] + r[d]
            for t in _terms(x, "fdiv"):
                if t.args == (n, gs[d]) or (isinstance(t.args[0], Poly) and t.args[0] == n and t.args[1] == gs[d]): mm[t] = q[d]
                elif t.args[0] == r[d] and t.args[1] == gs[d]: mm[t] = ZERO
        if not mm: return x
        for t in list(mm):
            for l in deps(t): mm.setdefault(l, l)
        return subst(x, mm)
    return w, gs, L, q, r, facts, fix
def _terms(x, op, out=None):
    if out is None: out = set()
    if isinstance(x, Term):
        if x.op == op: out.add(x)
        for a in x.args: _terms(a, op, out)
    elif isinstance(x, Poly):
        for a in x.atoms(): _terms(Term._byid[a], op, out)
    elif isinstance(x, BD):
        for t in bd_support(x): _terms(t, op, out)
    return out
def empty_remap(m, t, **kw):
    y = m.strip(m.ty(t)["el"] if m.ty(t)["k"] == "ref" else t); rec = y["rec"]
    ft = {n: x["t"] for n, x in m.fields(rec).items()}
    et = m.eltype(m.strip(ft["map"]))
    o = Obj(rec, {"map": VElems(et, m.size(et), [P(x) for x in kw.get("map", [])]), "size_subcomm": P(kw.get("sub", 0)), "mpi_rank": P(0)})
    return o
def chain(lo, hi, n, start, total, facts, what):
    """pieces lo[i]..hi[i] in order tile start..start+total-1"""
    if not prove_eq0(lo[0] - start, facts): return "%s starts at %s instead of %s" % (what, txt(lo[0]), txt(start))
    for i in range(n):
        if not prove_ge0(hi[i] + 1 - lo[i], facts): return "%s %d has a negative length %s" % (what, i, txt(hi[i] - lo[i] + 1))
        if i + 1 < n and not prove_eq0(hi[i] + 1 - lo[i + 1], facts): return "%s %d ends at %s and the next starts at %s" % (what, i, txt(hi[i]), txt(lo[i + 1]))
    if not prove_eq0(hi[n - 1] + 1 - start - total, facts): return "%s ends at %s instead of %s" % (what, txt(hi[n - 1]), txt(start + total - 1))
    return None
def split_sym(ctx, p, f):
    """any grid: the result is a nest of three loops, one per axis"""
    m = machine(p); w, gs, L, q, r, facts, fix = split_args(m, f); m.facts += facts
    res = call(m, f, {0: w, 1: arr(m, f["params"][1]["t"], gs), 2: empty_remap(m, f["params"][2]["t"])}); ctx.absorb(m)
    name = "split_world<%s>, any world and grid" % p.recs[m.strip(f["params"][0]["t"])["rec"]]["ta"][0]; loc = (f["file"], f["line"])
    loops = []; s = res.segs if isinstance(res, VSegs) else ()
    while len(s) == 1 and s[0][0] == "L":
        if s[0][3] is not TRUE: s = (); break
        loops.append((s[0][1], s[0][2])); s = s[0][4]
    if len(loops) != 3 or len(s) != 1 or s[0][0] != "e" or not isinstance(s[0][1], Obj):
        ctx.notes.append(name + ": not a three-level nest; only decided for concrete grids"); return
    o = s[0][1]; used = set()
    for d in range(3):
        lo, hi, sz = (fix(F(o, k)[d]) for k in ("low", "high", "size"))
        iv = [(n, N) for n, N in loops if depends(lo, n) or depends(hi, n)]
        if not ctx.check(len(iv) == 1 and iv[0][1] == gs[d], name + ": axis %d is split by one loop over grid[%d]" % (d, d), "depends on %s" % txt([x for x in iv]), loc): continue
        n, N = iv[0]; used.add(n); fs = facts + [P(n), gs[d] - 1 - P(n)]
        at = lambda x, v: subst(x, {n: P(v)})
        ctx.check(prove_eq0(at(lo, 0) - L[d], facts), name + ": axis %d, first part starts at the world's low end" % d, txt(at(lo, 0)), loc)
        ctx.check(prove_eq0(at(hi, gs[d] - 1) + 1 - L[d] - gs[d] * q[d] - r[d], facts), name + ": axis %d, last part ends at the world's high end" % d, txt(at(hi, gs[d] - 1)), loc)
        ctx.check(prove_eq0(hi + 1 - at(lo, P(n) + 1), fs + [gs[d] - 2 - P(n)]), name + ": axis %d, parts are adjacent" % d, "%s then %s" % (txt(hi), txt(at(lo, P(n) + 1))), loc)
        ctx.check(prove_ge0(hi + 1 - lo, fs), name + ": axis %d, no part has a negative length" % d, txt(hi + 1 - lo), loc)
        ctx.check(prove_eq0(sz - hi + lo - 1, fs), name + ": axis %d, size" % d, txt(sz), loc)
        big = q[d] + 1
        ctx.check(prove_ge0(big - sz, fs) and prove_ge0(sz - q[d], fs), name + ": axis %d, parts differ by at most one index" % d, txt(sz), loc)
    ctx.check(len(used) == 3, name + ": one part per grid point", "", loc)
    ctx.check(F(o, "order") == F(w, "order"), name + ": memory order of the world", txt(F(o, "order")), loc)
def split_fix(ctx, p, f, g, rmap=None, sub=0):
    """grid g: pairwise product structure; with a map, rank i gets the part map[i] or nothing"""
    m = machine(p); w, gs, L, q, r, facts, fix = split_args(m, f, g); m.facts += facts
    res = call(m, f, {0: w, 1: arr(m, f["params"][1]["t"], gs), 2: empty_remap(m, f["params"][2]["t"], map=rmap or [], sub=sub)}); ctx.absorb(m)
    name = "split_world<%s>, grid %dx%dx%d%s" % (p.recs[m.strip(f["params"][0]["t"])["rec"]]["ta"][0], *g, "" if rmap is None else ", ranks %s" % rmap); loc = (f["file"], f["line"])
    N = g[0] * g[1] * g[2] if rmap is None else len(rmap)
    v = [vec_get(res, P(i)) for i in range(N)] if P(res.size) == P(N) else None
    if not ctx.check(v is not None and all(isinstance(o, Obj) for o in v), name + ": one box per rank", "%s boxes: %s" % (txt(res.size), txt(res)[:300]), loc): return
    boxes = []
    for i, o in enumerate(v):
        e = is_empty_box(Obj(o.rec, {k: VElems(x.et, x.es, [fix(P(y)) for y in x.el]) for k, x in o.f.items()}), facts)
        if rmap is not None and rmap[i] == -1:
            ctx.check(e, name + ": rank %d has no data" % i, txt(o), loc)
            ctx.check(F(o, "order") == F(w, "order"), name + ": order of rank %d" % i, "", loc); continue
        boxes.append(tuple((fix(F(o, "low")[d]), fix(F(o, "high")[d])) for d in range(3)))
        ctx.check(F(o, "order") == F(w, "order"), name + ": order of rank %d" % i, "", loc)
    why = None
    parts = []
    for d in range(3):
        xs = []
        for b in boxes:
            if b[d] not in xs: xs.append(b[d])
        # order the parts along the axis
        xs.sort(key=lambda t: 0)
        xs = sorted(xs, key=lambda t: sum(1 for u in xs if u is not t and prove_ge0(t[0] - u[0], facts) and not prove_ge0(u[0] - t[0], facts)))
        parts.append(xs)
        if len(xs) > 1 or g[d] > 1 or True:
            why = why or chain([x[0] for x in xs], [x[1] for x in xs], len(xs), L[d], gs[d] * q[d] + r[d], facts, "axis %d: part" % d)
    if why is None and (len(set(boxes)) != len(boxes) or len(boxes) != len(parts[0]) * len(parts[1]) * len(parts[2])): why = "%d boxes, %d different" % (len(boxes), len(set(boxes)))
    if why is None and any(len(parts[d]) != g[d] for d in range(3)): why = "parts per axis %s" % [len(x) for x in parts]
    ctx.check(why is None, name + ": the boxes tile the world", why or "", loc)
# --------------------------------------------------------------------------- process grids
def grids(ctx, p):
    fs = fns(p, G + "get_factors")
    for f in fs:
        m = machine(p); n = P(T("sym", "n")); m.facts.append(n - 1); r = call(m, f, {0: n}); ctx.absorb(m); loc = (f["file"], f["line"])
        k = 0; ok = isinstance(r, VSegs)
        def walk(segs, g, fs_):
            nonlocal k, ok
            for s in segs:
                if s[0] == "L": walk(s[4], band(g, s[3]), fs_ + [P(s[1]), s[2] - 1 - P(s[1])])
                elif s[0] == "e":
                    k += 1; a, b = [P(x) for x in s[1].el]
                    pos, neg = bd_literals(g)
                    facts = [n - 1] + fs_
                    for t in pos:
                        if t.op == "eq": facts += [t.args[0], -t.args[0]]
                        elif t.op == "ge": facts.append(t.args[0])
                    if not prove_eq0(n - a * b, facts): ok = False; ctx.check(False, "get_factors: pairs multiply to the number", "%s * %s under %s" % (txt(a), txt(b), txt(g)), loc)
                    if not dom.fm_entails(facts, a - 1): ok = False; ctx.check(False, "get_factors: positive factors", txt(a), loc)
                else: ok = False
        if ok: walk(r.segs, TRUE, [])
        ctx.check(ok and k > 0, "get_factors: every pair multiplies to the number", txt(r)[:300], loc)
    def factors(m, f, n=3, pairs=None):
        et = m.eltype(m.strip(f["ret"])); it = m.eltype(m.strip(et))
        return VElems(et, m.size(et), [VElems(it, m.size(it), [P(T("sym", "f%d_%d" % (i, j))) for j in (0, 1)]) for i in range(n)])
    for f in fns(p, G + "make_procgrid"):
        for n in (1, 2, 3):
            seen = []
            def h(m, fn, this, a, node): seen.append(P(m.snap(a, fn)[0])); return factors(m, fn, n)
            m = machine(p, {G + "get_factors": h}); N = P(T("sym", "num")); r = call(m, f, {0: N}); ctx.absorb(m); loc = (f["file"], f["line"])
            name = "make_procgrid with %d factorizations" % n
            ctx.check(bool(seen) and all(x == N for x in seen), name + ": factors of the number of ranks", txt(seen), loc)
            ok = isinstance(r, VElems)
            if ok:
                for fs_, ys in cases([P(x) for x in r.el], []):
                    if not any(ys == [P(T("sym", "f%d_%d" % (i, j))) for j in (0, 1)] for i in range(n)): ok = False
            ctx.check(ok, name + ": the grid is one of the factorizations", txt(r)[:300], loc)
    for f in fns(p, G + "make_procgrid2d"):
        for d in range(3):
            for n in (1, 2, 3) if d == 0 else (2,):
                seen = []
                def h(m, fn, this, a, node): seen.append(P(m.snap(a, fn)[0])); return factors(m, fn, n)
                m = machine(p, {G + "get_factors": h, G + "get_area": lambda m, fn, this, a, node: P(T("area", *[P(x) for x in m.snap(a, fn)[0].el]))})
                rec = m.strip(f["params"][0]["t"])["rec"]; w = symbox(m, rec, "w"); c = [P(T("sym", "c%d" % i)) for i in (0, 1)]
                s = F(w, "size")
                for x in s: m.facts.append(x - 1)
                r = call(m, f, {0: w, 1: P(d), 2: arr(m, f["params"][2]["t"], c)}); ctx.absorb(m); loc = (f["file"], f["line"])
                name = "make_procgrid2d<%s>, axis %d, %d factorizations" % (p.recs[rec]["ta"][0], d, n)
                ctx.check(all(x == c[0] * c[1] for x in seen), name + ": factors of the candidate's number of ranks", txt(seen), loc)
                why = None
                thrown = bor(*[e.g for e in flatten(m.rec) if e.e.kind == "throw"]) if m.rec else FALSE
                rest = [i for i in range(3) if i != d]
                cand = [c] + [[P(T("sym", "f%d_%d" % (i, j))) for j in (0, 1)] for i in range(n)]
                if not isinstance(r, VElems): why = txt(r)[:200]
                else:
                    g = bnot(thrown)
                    for fs_, ys in cases([P(x) for x in r.el] + [bd_poly(g)], list(m.facts)):
                        if ys[3] == ZERO:
                            for x in cand[1:]:
                                y = list(x); y.insert(d, ONE)
                                if consistent(fs_ + [s[i] - y[i] for i in range(3)]): why = "refused although %s fits" % txt(y); break
                            if why: break
                            continue
                        if ys[d] != ONE: why = "axis %d is split into %s" % (d, txt(ys[d])); break
                        if not any([ys[rest[0]], ys[rest[1]]] == x for x in cand): why = "grid %s" % txt(ys[:3]); break
                        if not all(dom.fm_entails(fs_, s[i] - ys[i]) for i in range(3)): why = "grid %s can exceed the world" % txt(ys[:3]); break
                ctx.check(why is None, name + ": a factorization that leaves the axis whole and fits the world, or an error", why or "", loc)
# --------------------------------------------------------------------------- assignment of boxes to ranks
def overlap(ctx, p, f, n, rmap=None):
    def h_collide(m, fn, this, a, node):
        b = m.read(this) if this is not None else None; c = m.snap(a, fn)[0]
        k = (P(b.f["low"].el[0]), P(c.f["low"].el[0]))
        return Obj(m.strip(fn["ret"])["rec"], {}, T("col", *k))
    m = machine(p, {G + "box3d::collide": h_collide, G + "box3d::count": lambda m, fn, this, a, node: P(T("ov", m.read(this).base))})
    dom.NONNEG_OPS.add("ov")
    ft = m.ty(f["params"][0]["t"])["el"]; et = m.eltype(m.strip(ft)); rec = m.strip(et)["rec"]
    new = VElems(et, m.size(et), [symbox(m, rec, "n%d" % i) for i in range(n)]); old = VElems(et, m.size(et), [symbox(m, rec, "o%d" % i, (1, 0, 2)) for i in range(n)])
    r = call(m, f, {0: new, 1: old, 2: arr(m, f["params"][2]["t"], (2, 0, 1)), 3: empty_remap(m, f["params"][3]["t"], map=rmap or [], sub=len([x for x in rmap or [] if x >= 0]))})
    ctx.absorb(m); loc = (f["file"], f["line"]); name = "maximize_overlap<%s>, %d ranks%s" % (p.recs[rec]["ta"][0], n, "" if rmap is None else ", ranks %s" % rmap)
    why = None
    if not isinstance(r, Vec) or P(r.size) != P(n): why = "%s boxes" % txt(r.size if isinstance(r, Vec) else r)
    else:
        v = [vec_get(r, P(i)) for i in range(n)]
        if not all(isinstance(o, Obj) for o in v): why = txt(v)[:300]
        else:
            ids = [[F(b, "low")[0], F(b, "high")[2]] for b in new.el]
            facts = []
            for i in range(n):
                for j in range(n): pass
            xs = [x for o in v for x in (F(o, "low")[0], F(o, "high")[2])]
            k = 0
            for fs_, ys in cases(xs, [P(t) for t in _allterms(xs, "ov")]):
                k += 1
                got = [ids.index([ys[2 * i], ys[2 * i + 1]]) if [ys[2 * i], ys[2 * i + 1]] in ids else None for i in range(n)]
                if None in got or sorted(got) != list(range(n)): why = "ranks get boxes %s" % (got if None not in got else txt(ys)); break
                if rmap is not None and any(rmap[i] == -1 and got[i] != i for i in range(n)): why = "unused ranks get the boxes of others: %s" % got; break
            if any(F(o, "order") != [P(2), ZERO, ONE] for o in v): why = why or "memory order %s" % txt(F(v[0], "order"))
    if m.st.dead: why = "fails"
    ctx.check(why is None, name + ": every box goes to exactly one rank, in the requested order", why or "", loc)
def _allterms(xs, op):
    out = set()
    for x in xs: _terms(x, op, out)
    return out
def complete(ctx, p, f):
    """world_complete returns only for disjoint boxes from 0 with enough indexes"""
    for n in (1, 2, 3):
        m = machine(p, {G + "box3d::collide": lambda m, fn, this, a, node: Obj(m.strip(fn["ret"])["rec"], {}, T("col", P(m.read(this).f["low"].el[0]), P(m.snap(a, fn)[0].f["low"].el[0]))),
                        G + "box3d::empty": lambda m, fn, this, a, node: batom(T("em", m.read(this).base or T("x", P(m.read(this).f["low"].el[0])))),
                        G + "box3d::count": lambda m, fn, this, a, node: P(T("cnt", P(m.read(this).f["low"].el[0])))})
        v = boxvec(m, m.ty(f["params"][0]["t"])["el"], n); rec = m.strip(f["params"][1]["t"])["rec"]; w = symbox(m, rec, "w")
        call(m, f, {0: v, 1: w}); ctx.absorb(m); loc = (f["file"], f["line"])
        name = "world_complete<%s> with %d boxes" % (p.recs[rec]["ta"][0], n)
        thrown = bor(*[e.g for e in flatten(m.rec) if e.e.kind == "throw"]); ok = bnot(thrown)
        tot = ZERO
        for b in v.el: tot = tot + P(T("cnt", F(b, "low")[0]))
        ctx.check(implies(ok, ge0(tot - P(T("cnt", F(w, "low")[0])))), name + ": too few indexes are refused", "", loc)
        for d in range(3): ctx.check(implies(ok, eq0(F(w, "low")[d])), name + ": axis %d must start at 0" % d, "", loc)
        for i in range(n):
            for j in range(i):
                a, b = F(v.el[i], "low")[0], F(v.el[j], "low")[0]
                ctx.check(implies(ok, batom(T("em", T("col", a, b)))) or implies(ok, batom(T("em", T("col", b, a)))), name + ": overlapping boxes %d and %d are refused" % (i, j), "", loc)
        want = ge0(tot - P(T("cnt", F(w, "low")[0])))
        for d in range(3): want = band(want, eq0(F(w, "low")[d]))
        for i in range(n):
            for j in range(n):
                if i != j: want = band(want, batom(T("em", T("col", F(v.el[i], "low")[0], F(v.el[j], "low")[0]))))
        ctx.check(implies(want, ok), name + ": valid layouts are accepted", "refused when %s" % txt(thrown)[:300], loc)
# --------------------------------------------------------------------------- narrowing
WIDE = {"long long", "long", "unsigned long", "unsigned long long", "size_t", "std::size_t"}
def narrowing(ctx, p):
    """implicit conversions of 64-bit index arithmetic to int in the long long instantiations"""
    n = 0
    for f in p.fns.values():
        if not (f.get("file") or "").endswith(("heffte_geometry.h", "heffte_plan_logic.cpp", "heffte_plan_logic.h")) or not f.get("body"): continue
        ts = [p.types[q["t"]]["s"] for q in f["params"]] + ([p.recs[f["cls"]]["q"] + str(p.recs[f["cls"]].get("ta"))] if f.get("cls") else [])
        if not any("long long" in t for t in ts): continue
        n += 1
        def walk(x, top):
            if isinstance(x, dict):
                if x.get("k") == "cast" and x.get("impl") and x.get("ck") == "IntegralCast":
                    a, b = p.types.get(x.get("ft")), p.types.get(x.get("t"))
                    if a and b and a["k"] == "int" and b["k"] == "int" and a.get("bits") == 64 and a.get("signed") and b.get("bits") == 32 and not const(x["e"]):
                        ctx.check(False, "%s: 64-bit index arithmetic is not truncated" % f["q"].replace(G, ""), "%s becomes %s" % (a["s"], b["s"]), (f["file"], x.get("l", f["line"])))
                for k, y in x.items():
                    if k != "t": walk(y, False)
            elif isinstance(x, list):
                for y in x: walk(y, False)
        def const(x): return isinstance(x, dict) and x.get("k") in ("int", "bool")
        walk(f["body"], True); walk(f.get("inits") or [], True)
        ctx.ok("%s: no implicit truncation" % f["q"])
        ctx.funcs.add(f["q"])
    if n < 10: raise AnchorMissing("long long instantiations of the geometry (%d)" % n)
def widening(ctx, p):
    """the number of indexes of a box is computed in 64 bits"""
    def mul32(x):
        if isinstance(x, dict):
            if x.get("k") == "bin" and x.get("op") == "*":
                y = p.types.get(x.get("t"))
                if y and y["k"] == "int" and y.get("bits", 64) < 64: return x
            for y in x.values():
                r = mul32(y)
                if r: return r
        elif isinstance(x, list):
            for y in x:
                r = mul32(y)
                if r: return r
    for f in fns(p, G + "box3d::count"):
        x = mul32(f["body"])
        ctx.check(x is None, "box3d<%s>::count: product computed in 64 bits" % p.recs[f["cls"]]["ta"][0], "32-bit product", (f["file"], x.get("l", f["line"]) if x else f["line"]))
# --------------------------------------------------------------------------- predicates over shapes
def predicates(ctx, p):
    for n in (1, 2, 3):
        for f in fns(p, G + "match"):
            vt = m0(p, f)
            for k in (n, n + 1):
                m = machine(p); a = boxvec(m, vt, n); b = boxvec(m, vt, k)
                for i, x in enumerate(b.el): b.el = list(b.el); b.el[i] = symbox(m, x.rec, "y%d" % i)
                r = m.boolean(call(m, f, {0: a, 1: b})); ctx.absorb(m); want = FALSE
                if k == n:
                    want = TRUE
                    for x, y in zip(a.el, b.el):
                        for q in ("low", "high"):
                            for u, v in zip(F(x, q), F(y, q)): want = band(want, eq0(u - v))
                ctx.check(implies(r, want) and implies(want, r), "match of %d and %d boxes" % (n, k), "is %s" % txt(r)[:300], (f["file"], f["line"]))
        for name, dirs in (("is_pencils", [(0,), (1,), (2,)]), ("is_slab", [(0, 1), (1, 2), (2, 0)])):
            for f in fns(p, G + name):
                vec = name == "is_pencils" and p.types[f["params"][2]["t"]]["k"] != "int"
                for ds in dirs + ([(1, 2), (0, 2), (0, 1, 2)] if vec else []):
                    m = machine(p); rec = m.strip(f["params"][0]["t"])["rec"]; w = symbox(m, rec, "w"); v = boxvec(m, m0(p, f, 1), n)
                    r = m.boolean(call(m, f, {0: w, 1: v, **({2: arr(m, f["params"][2]["t"], ds)} if vec else {2 + i: P(d) for i, d in enumerate(ds)})})); ctx.absorb(m); want = TRUE
                    for x in v.el:
                        for d in ds: want = band(want, eq0(F(x, "size")[d] - F(w, "size")[d]))
                    ctx.check(implies(r, want) and implies(want, r), "%s%s of %d boxes" % (name, ds, n), "is %s" % txt(r)[:300], (f["file"], f["line"]))
        for f in fns(p, G + "apply_r2c"):
            for d in (-1, 0, 1, 2):
                seen = {}
                def h(m, fn, this, a, node):
                    o = m.read(this); k = (P(o.f["low"].el[0]), P(m.snap(a, fn)[0])); return Obj(o.rec, {}, T("half", *k))
                m = machine(p, {G + "box3d::r2c": h}); v = boxvec(m, m0(p, f), n); r = call(m, f, {0: v, 1: P(d)}); ctx.absorb(m)
                ok = isinstance(r, Vec) and P(r.size) == P(n)
                for i, x in enumerate(v.el):
                    o = vec_get(r, P(i)) if ok else None
                    if d == -1: ok = ok and isinstance(o, Obj) and all(F(o, k) == F(x, k) for k in ("low", "high", "order"))
                    else: ok = ok and isinstance(o, Obj) and o.base is T("half", F(x, "low")[0], P(d))
                ctx.check(ok, "apply_r2c(%d) of %d boxes" % (d, n), txt(r)[:300], (f["file"], f["line"]))
        for f in fns(p, G + "reorder"):
            m = machine(p); v = boxvec(m, m0(p, f), n); r = call(m, f, {0: v, 1: arr(m, f["params"][1]["t"], (2, 0, 1))}); ctx.absorb(m)
            ok = isinstance(r, Vec) and P(r.size) == P(n)
            if ok:
                for i, x in enumerate(v.el):
                    o = vec_get(r, P(i)); ok = ok and isinstance(o, Obj) and all(F(o, k) == F(x, k) for k in ("low", "high", "size")) and F(o, "order") == [P(2), ZERO, ONE]
            ctx.check(ok, "reorder of %d boxes keeps the ranges and sets the order" % n, txt(r)[:300], (f["file"], f["line"]))
def m0(p, f, i=0):
    t = p.types[f["params"][i]["t"]]
    return t["el"] if t["k"] == "ref" else f["params"][i]["t"]
def run(ctx):
    ctx.rules = ["box queries and constructors agree with the index ranges", "split_world: along every axis the parts are adjacent, start and end at the world's ends, have no negative length and differ by at most one; with a rank map exactly the mapped ranks hold parts",
                 "process grids are factorizations of the number of ranks that fit the world", "maximize_overlap assigns each box to exactly one rank", "world_complete accepts exactly disjoint, complete layouts from 0", "no implicit 64 to 32 bit conversion in the 64-bit index instantiations"]
    pl = unit("src/heffte_plan_logic.cpp", "planlogic"); main = program("int")
    its = []
    for p in (main, pl):
        for rec in boxrecs(p): its.append((lambda ctx, p=p, rec=rec: box(ctx, p, rec)))
    p = pl
    need = {n: fns(p, G + n) for n in ("find_world", "split_world", "get_factors", "make_procgrid", "make_procgrid2d", "maximize_overlap", "world_complete")}
    for n, v in need.items():
        if not v: raise AnchorMissing(n)
    for f in need["find_world"]: its.append(lambda ctx, f=f: world(ctx, p, f))
    for f in need["split_world"]:
        its.append(lambda ctx, f=f: split_sym(ctx, p, f))
        for g in [(1, 1, 1), (2, 1, 1), (1, 3, 1), (1, 2, 2), (3, 1, 2), (2, 3, 1), (2, 2, 2)] + ([(4, 1, 3), (3, 3, 2), (5, 2, 1)] if ctx.tier == "thorough" else []): its.append(lambda ctx, f=f, g=g: split_fix(ctx, p, f, g))
    its.append(lambda ctx: grids(ctx, p))
    its.append(lambda ctx: [predicates(ctx, q) for q in (main, pl)]); its.append(lambda ctx: [widening(ctx, q) for q in (main, pl)])
    for f in need["maximize_overlap"]:
        for n in (1, 2, 3): its.append(lambda ctx, f=f, n=n: overlap(ctx, p, f, n))
    for f in need["world_complete"]: its.append(lambda ctx, f=f: complete(ctx, p, f))
    its.append(lambda ctx: narrowing(ctx, pl))
    ctx.parallel(its, lambda ctx, it: it(ctx))
