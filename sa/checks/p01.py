"""P01: packers. The data movement of each packer instantiation is derived as a set of loop nests and compared with the
planned block movement up to reordering of the loops."""
from harness import *
TITLE = "Packing copies exactly the planned block"
TECHNIQUE = "value-flow analysis with loop summaries; equality of the derived data-movement relation with the planned block"

def spec(pl, es, kind, perm):
    s = [pl["s%d" % i] for i in range(3)]
    k, j, i = (fresh_index("k"), fresh_index("j"), fresh_index("i"))
    c = [P(k), P(j), P(i)]
    user = (c[2] * pl["ps"] + c[1] * pl["ls"] + c[0]) * es
    if kind == "direct": msg = (c[0] + s[0] * (c[1] + s[1] * c[2])) * es
    else: msg = (c[perm[0]] + pl["bls"] * c[perm[1]] + pl["bps"] * c[perm[2]]) * es
    return [(k, s[0]), (j, s[1]), (i, s[2])], user, msg

def analyse(ctx, p, f, cls, op, perm, iname):
    m = machine(p)
    pv = T("sym", "plan"); 
    ptype = [x for x in f["params"] if m.ty(x["t"])["k"] == "ref"][0]
    obj = m.sym(m.ty(ptype["t"])["el"], pv)
    if perm is not None:
        et = m.objfield(obj, "map")
        if not isinstance(et, VElems): raise AnchorMissing("pack_plan_3d::map")
        obj = obj.with_("map", VElems(et.et, et.es, [P(x) for x in perm]))
    m.st.s[pv] = obj
    pl = {}
    size = m.objfield(obj, "size")
    if not isinstance(size, VElems) or len(size.el) != 3: raise AnchorMissing("pack_plan_3d::size")
    for i in range(3): pl["s%d" % i] = size.el[i]
    for k, n in (("ls", "line_stride"), ("ps", "plane_stride"), ("bls", "buff_line_stride"), ("bps", "buff_plane_stride")):
        pl[k] = m.objfield(obj, n)
        if not isinstance(pl[k], Poly): raise AnchorMissing("pack_plan_3d::" + n)
    m.facts = [pl["s%d" % i] for i in range(3)]
    for i in range(3):
        t = pl["s%d" % i].atom_term()
        mark_nonneg(t)
    ptrs = [x for x in f["params"] if m.ty(x["t"])["k"] == "ptr"]
    src = [x for x in ptrs if m.ty(m.ty(x["t"])["el"]).get("const")]
    dst = [x for x in ptrs if not m.ty(m.ty(x["t"])["el"]).get("const") and m.ty(m.ty(x["t"])["el"])["k"] != "void"]
    if len(src) != 1 or len(dst) != 1: raise AnchorMissing("packer parameters of " + f["q"])
    es = m.size(m.ty(src[0]["t"])["el"])
    S = T("sym", "src"); D = T("sym", "dst")
    call(m, f, {src[0]["n"]: Ptr(S, (), ZERO), dst[0]["n"]: Ptr(D, (), ZERO), ptype["n"]: LV(pv)})
    ctx.absorb(m)
    name = "%s::%s<%s,%s>%s" % (cls, op, ",".join(f.get("ta") or []), iname, "" if perm is None else " map=%s" % (perm,))
    fl = [norm_nest(x) for x in flatten(m.rec)]
    fl = [x for x in fl if x.g is not FALSE]
    loops, user, msg = spec(pl, es, "direct" if (op == "pack" or cls == "direct_packer") else "transpose", perm)
    want_dst, want_src = (msg, user) if op == "pack" else (user, msg)
    loc = (f["file"], f["line"])
    bad = [x for x in fl if x.e.kind != "write"]
    ctx.check(not bad, name + ": only element copies", "other effects: %s" % bad[:2], bad[0].e.loc if bad else loc)
    w = [x for x in fl if x.e.kind == "write"]
    ok = False
    detail = "derived data movement:\n      " + "\n      ".join(map(repr, w[:3]))
    if len(w) == 1:
        x = w[0]
        def test(e, g):
            val = e.d["val"]
            return g is TRUE and e.d["mem"] is D and e.d["size"] == es and e.d["off"] is want_dst and isinstance(val, Poly) and val is P(T("load", S, want_src, es))
        ok = match_nest(x, loops, test) is not None
    detail += "\n      required: dst[%s] = src[%s] for %s" % (show(want_dst), show(want_src), ", ".join("%s<%s" % (show(n), show(N)) for n, N in loops))
    ctx.check(ok, name + ": moves exactly the planned block", detail, w[0].e.loc if w else loc)

def run(ctx):
    ctx.rules = ["for each packer instantiation the derived writes are one nest equal, up to a permutation/reversal of the loops (tiles and flattened indices fused), to dst[compact(i,j,k)] = src[strided(i,j,k)] over the plan's three extents, axis map applied for the transposing unpack; no other effect"]
    ctx.assumptions = ["plan extents are nonnegative", "source and destination buffers do not overlap", "index arithmetic does not overflow the index type"]
    for iname in ("int", "long long"):
        p = program("int")
        for cls in ("direct_packer", "transpose_packer"):
            for op in ("pack", "unpack"):
                fs = [f for f in fns(p, "heffte::%s::%s" % (cls, op)) if "tag::cpu" in f["q"] and (f.get("ta") or ["", ""])[1] == iname]
                if len(fs) < 4: raise AnchorMissing("%s::%s for CPU (%d instantiations)" % (cls, op, len(fs)))
                for f in fs:
                    if cls == "transpose_packer" and op == "unpack":
                        for perm in itertools.permutations(range(3)): analyse(ctx, p, f, cls, op, perm, iname)
                    else: analyse(ctx, p, f, cls, op, None, iname)
