"""P09: buffers of the pipelines: no overlap, within the work space; advertised sizes cover what the pipelines use."""
from pipeline import *
from planobj import built, ctors, delegates, backend_of, short, methods
from checks.p08 import items
TITLE = "Transform work buffers never overlap and stay within the advertised work space"
TECHNIQUE = "value-flow analysis of the pipelines with interval (region) reasoning over symbolic sizes and batch"
LEVEL = "proof"

def prove(e, facts, depth=14):
    """e >= 0 follows from facts >= 0 (max0 terms bounded on the side they are needed, indicators split)"""
    if nonneg(e): return True
    atoms, todo, ext = set(), [e] + list(facts), []
    while todo:
        for k in todo.pop().atoms():
            if k in atoms: continue
            atoms.add(k); t = Term._byid[k]
            if t.op == "max0": ext += [P(t), P(t) - t.args[0]]; todo.append(t.args[0])
            elif nonneg_term(t): ext.append(P(t))
    if fm_entails(facts + ext, e): return True
    if depth == 0: return False
    tops = [Term._byid[a] for a in e.atoms()]
    for t in tops:
        if t.op == "ind":
            lits = bd_literals(batom(t.args[0])) if isinstance(t.args[0], Term) else None
            if not (isinstance(t.args[0], Term) and t.args[0].op in ("ge", "eq")): continue
            q = t.args[0].args[0]
            if t.args[0].op == "ge": hi, lo = [[q]], [[-q - 1]]
            else: hi, lo = [[q, -q]], [[q - 1], [-q - 1]]
            return all(prove(subst_atom(e, t, ONE), facts + c, depth - 1) for c in hi) and all(prove(subst_atom(e, t, ZERO), facts + c, depth - 1) for c in lo)
    inner = set()
    for t in tops:
        if t.op == "max0": inner |= {x for x in deps(t.args[0])}
    for t in tops:
        if t.op != "max0": continue
        if any(u.op == "max0" and u is not t and t in deps(u.args[0]) for u in tops): continue
        x = t.args[0]
        co = coefficient(e, t)
        if co is None: continue
        if nonneg(co[0]): continue
        return prove(subst_atom(e, t, x), facts + [x], depth - 1) and prove(subst_atom(e, t, ZERO), facts + [-x], depth - 1)
    return False
class Reg:
    """[lo, lo+len) bytes per batch entry (all offsets are multiples of the batch size)"""
    def __init__(s, base, lo, ln): s.base, s.lo, s.ln = base, lo, ln
    def __repr__(s): return "%s bytes [%s, +%s) x batch" % (show(s.base), txt(s.lo), txt(s.ln))
def apart(a, b, facts):
    return a.base is not b.base or a.ln is ZERO or b.ln is ZERO or prove(b.lo - a.lo - a.ln, facts) or prove(a.lo - b.lo - b.ln, facts)
def one(ctx, p, it):
    f, sc, r2cplan = it
    r = analyse(p, f, sc, r2cplan); m = r.m
    name = repr(sc) + (" (r2c plan)" if r2cplan else "")
    es = r.el
    cap, S = P(T("sym", "max_box")), P(T("sym", "size_workspace"))
    mark_nonneg(cap.atom_term()); mark_nonneg(S.atom_term())
    facts = [S - r.CO - cap]
    for k in range(4):
        w = P(T("sym", "shaper_ws%d" % k)); mark_nonneg(w.atom_term())
        if sc.sh[k]: facts += [r.CO - w, w - r.pre[k] - r.post[k]]
    for i in range(3):
        x = P(T("sym", "exec_ws%d" % i)); mark_nonneg(x.atom_term())
        if not r.ex[i]: continue
        half = 0 if sc.dir == 0 else 2
        big = r.cpx[i] if (r2cplan and i == half) else r.box[i]
        facts += [cap - big]
        if r2cplan and i == half: facts += [2 * r.cpx[i] - r.box[i]]
        facts += [S - r.EO - x, r.EO - r.CO - cap]      # a work space of this transform exists: executor_buffer_offset != 0
    if not sc.alias: caps = {r.IN: r.pre[0] * es[0], r.OUT: r.post[3] * es[1], r.WS: S * es[2]}
    else: caps = {r.IN: pmax(r.pre[0], r.post[3]) * es[0], r.WS: S * es[2]}
    bad = [0]
    def ck(ok, rule, detail, loc):
        if not ok: bad[0] = 1; ctx.check(False, name + ": " + rule, detail, loc)
        return ok
    def region(v, ln, loc, what, loops=()):
        """byte region of ln*batch bytes at pointer v"""
        if isinstance(v, GV):
            nz = [x for g, x in v.alts if not (isinstance(x, Ptr) and x.base is NULL.base)]
            v = nz[0] if len(nz) == 1 else v
        if not isinstance(v, Ptr) or v.path or v.off is None:
            ck(ln is ZERO, "the %s is a known buffer" % what, txt(v), loc); return None
        off = v.off
        if ln is ZERO: return Reg(v.base, ZERO, ZERO)
        for n, N in loops:
            co = coefficient(off, n)
            if co is None or N is not r.B: ck(False, "the %s is addressed per batch entry" % what, txt(off), loc); return None
            if not ck(prove(co[0] - ln, facts), "the %s of the batch entries do not overlap" % what, "entries of %s bytes every %s bytes" % (txt(ln), txt(co[0])), loc): return None
            ln = co[0]; off = co[1]
        lo = exact_div(off, r.B) if off is not ZERO else ZERO
        if not ck(lo is not None, "the position of the %s scales with the batch" % what, txt(off), loc): return None
        x = Reg(v.base, lo, ln)
        if not ck(v.base in caps, "the %s is in an array of the call" % what, txt(v), loc): return None
        if not ck(prove(lo, facts) and prove(caps[v.base] - lo - ln, facts), "the %s fits into its array" % what, "%s, array of %s" % (x, txt(caps[v.base])), loc): return None
        return x
    for fl in flat_events(r):
        e = fl.e
        if e.kind not in ("stage", "copy") or bad[0]: continue
        a = e.d["args"]; loc = e.loc
        if e.kind == "copy":
            cnt = exact_div(a[2], r.B) if a[2] is not ZERO else ZERO
            if not ck(cnt is not None, "copies scale with the batch", txt(a[2]), loc): continue
            esz = m.size(m.ty(e.d["tys"][1])["el"])
            s, d = region(a[1], cnt * esz, loc, "copied data"), region(a[3], cnt * esz, loc, "copy")
            if s and d: ck(apart(s, d, facts), "copies do not overlap their source", "%s and %s" % (s, d), loc)
            continue
        if e.d["what"] == "missing": continue
        i = e.d["i"]; ty = [m.size(m.ty(t)["el"]) if m.ty(t)["k"] == "ptr" else 0 for t in e.d["ptypes"]]
        if e.d["what"] == "shaper":
            s = region(a[1], r.pre[i] * ty[1], loc, "redistributed data"); d = region(a[2], r.post[i] * ty[2], loc, "redistribution result")
            w = region(a[3], P(T("sym", "shaper_ws%d" % i)) * ty[3], loc, "work space of the redistribution")
            if not (s and d and w): continue
            same = s.base is d.base and s.lo is d.lo
            ck(same or apart(s, d, facts), "a redistribution is in place or between separate buffers", "%s and %s" % (s, d), loc)
            ck(apart(w, s, facts) and apart(w, d, facts), "the work space of a redistribution is separate from its data", "work %s, data %s, result %s" % (w, s, d), loc)
            continue
        two = len(a) == 3
        s = region(a[0], r.post[i] * ty[0], loc, "transformed data", fl.loops)
        d = region(a[1], r.pre[i + 1] * ty[1], loc, "converted data", fl.loops) if two else s
        v = a[-1]
        xs = P(T("sym", "exec_ws%d" % i))
        if isinstance(v, Ptr) and v.base is NULL.base: w = None; ck(False, "a local transform gets its work space", txt(v), loc)
        else:
            # shared by the batch entries, which run one after the other
            if isinstance(v, GV):
                nul = [g for g, x in v.alts if isinstance(x, Ptr) and x.base is NULL.base]
                ck(all(implies(g, eq0(r.EO)) for g in nul), "a local transform gets its work space", txt(v), loc)
                nz = [x for g, x in v.alts if not (isinstance(x, Ptr) and x.base is NULL.base)]
                v = nz[0] if len(nz) == 1 else v
            w = None
            if ck(isinstance(v, Ptr) and v.base is r.WS and not v.path, "the work space of a local transform is in the work array", txt(v), loc):
                lo = exact_div(v.off, r.B)
                if ck(lo is not None, "the work space of a local transform lies behind the batched buffers", "at %s" % txt(v.off), loc):
                    w = Reg(v.base, lo, xs * ty[-1])      # at least: one batch entry's share
                    ck(prove(lo, facts) and prove(caps[r.WS] - lo - w.ln, facts), "the work space of a local transform fits into the work array", "%s" % w, loc)
        if not (s and d and w): continue
        if two: ck(apart(s, d, facts), "a converting transform is between separate buffers", "%s and %s" % (s, d), loc)
        ck(apart(w, s, facts) and apart(w, d, facts), "the work space of a local transform is separate from its data", "work %s, data %s, result %s" % (w, s, d), loc)
    if not bad[0]: ctx.check(True, name + ": buffers are separate and inside their arrays")
    ctx.absorb(m)
def sizes_of(ctx, p, c):
    """the sizes computed by a constructor cover what the pipelines use"""
    b = built(p, c); m = b.m; ctx.absorb(m)
    loc = (c["file"], c["line"]); name = "%s %s constructor line %s" % (short(p, c), backend_of(p, c), c["line"])
    r2c = "fft3d_r2c" in c["q"]
    S, CO, EO = [m.objfield(b.obj, k) for k in ("size_buffer_work", "comm_buffer_offset", "executor_buffer_offset")]
    def sym(s, i): return P(T("sym", "%s%d" % (s, i)))
    ne, nr = len(b.exec), len(b.resh)
    if not ctx.check(nr == 8 and 1 <= ne <= 3, name + ": redistributions and transforms", "%d, %d" % (nr, ne), loc): return
    box = []
    for i, (fn, a) in enumerate(b.exec):
        conv = normq(fn["q"]).endswith("_r2c")
        box.append(sym("complex_size" if conv else "box_size", i))
    facts = [x - 1 for x in box]
    for i in range(nr):
        ctx.check(prove(CO - sym("size_workspace", i), facts), name + ": room for redistribution %d" % i, "%s against %s" % (txt(CO), txt(sym("size_workspace", i))), loc)
    for i in range(ne):
        ctx.check(prove(S - CO - box[i], facts), name + ": room for the data of transform %d" % i, "%s" % txt(S - CO), loc)
        w = sym("workspace_size", i)
        for j in range(ne):
            ctx.check(prove(EO - CO - box[j], facts + [w - 1]), name + ": work space of transform %d behind the data of transform %d" % (i, j), txt(EO - CO), loc)
        ctx.check(prove(S - EO - w, facts + [w - 1]), name + ": room for the work space of transform %d" % i, "offset %s of %s" % (txt(EO), txt(S)), loc)
    for q, v in (("size_workspace", S), ("size_comm_buffers", CO)):
        fs = [x for x in fns(p, normq(c["q"]).rsplit("::", 1)[0] + "::" + q) if x["cls"] == c["cls"]]
        if len(fs) != 1: raise AnchorMissing(q)
        ctx.check(m.inline(fs[0], b.this, []) is v, name + ": %s() returns it" % q, "", (fs[0]["file"], fs[0]["line"]))
def run(ctx):
    ctx.rules = ["per pipeline event: data, result and work regions are pairwise disjoint (or exactly in place where allowed), scale with the batch and lie inside the arrays of the call", "per constructor: size_comm_buffers >= every redistribution's work space; size_workspace >= comm + every stage box; the transform work space lies behind both and inside"]
    ctx.assumptions = ["a redistribution's work space holds at least all entries it sends and receives (P07)", "in-place redistributions pack everything before writing (P16)", "a half-spectrum box has at least half as many complex entries as its real box"]
    p = program("int")
    its = [("run", x) for x in items(p, ctx.tier)]
    cs = [c for c in ctors(p) if not delegates(c)]
    if len({c["cls"] for c in cs}) < 15: raise AnchorMissing("constructors")
    its += [("size", c) for c in cs]
    ctx.parallel(its, lambda ctx, it: one(ctx, p, it[1]) if it[0] == "run" else sizes_of(ctx, p, it[1]))
