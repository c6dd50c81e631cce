"""P16: out-of-place transforms and redistributions never write to the input array; in-place redistributions read before they write."""
from pipeline import *
from planobj import built, ctors, delegates, short, methods, run_method
import reshape, execs
from checks.p08 import items
from checks import p13 as lines
TITLE = "Input arrays are never modified by out-of-place transforms"
TECHNIQUE = "write-set (effect) analysis of pipelines, redistributions, executors and public calls on symbolic arrays"
LEVEL = "proof"

# which pointer arguments of an MPI call the library writes
MPIW = {"MPI_Alltoall": (3,), "MPI_Alltoallv": (4,), "MPI_Irecv": (0,), "MPI_Recv": (0,), "MPI_Allgather": (3,), "MPI_Bcast": (0,), "MPI_Sendrecv": (5,)}
def bases(v):
    if isinstance(v, GV):
        s = set()
        for _, x in v.alts: s |= bases(x)
        return s
    return {v.base} if isinstance(v, Ptr) else set()
def pipe(ctx, p, f, sc, r2cplan):
    r = analyse(p, f, sc, r2cplan); name = repr(sc) + (" (r2c plan)" if r2cplan else ""); m = r.m
    bad = 0
    for fl in flat_events(r):
        e = fl.e
        if fl.g is FALSE: continue
        if e.kind == "write": w = [(e.d["mem"], "a store")] if e.d["mem"] is r.IN else []
        elif e.kind == "copy": w = [(b, "a copy") for b in bases(e.d["args"][3])]
        elif e.kind == "stage" and e.d["what"] == "shaper" and e.d["fn"] == "apply": w = [(b, "the result of redistribution %d" % e.d["i"]) for b in bases(e.d["args"][2])] + [(b, "the work space of redistribution %d" % e.d["i"]) for b in bases(e.d["args"][3])]
        elif e.kind == "stage" and e.d["what"] == "exec" and e.d["fn"] in ("forward", "backward"):
            a, ty = e.d["args"], [m.ty(t) for t in e.d["ptypes"]]
            # any array passed as non-const is overwritten: in-place transforms, and complex-to-real transforms destroy their source
            w = [(b, "local transform %d" % e.d["i"]) for x, t in zip(a, ty) if not t["s"].startswith("const") for b in bases(x)]
        else: continue
        for b, what in w:
            if b is r.IN:
                bad = 1; ctx.check(False, name + ": the input array is only read", "%s goes to the input array" % what, e.loc)
    if not bad: ctx.check(True, name + ": the input array is only read")
    ctx.absorb(m)
def resh(ctx, p, c):
    t = reshape.get_trace(p, c); ctx.absorb(t.m); name = reshape.cname(c)
    if t.null: ctx.ok(name + ": does nothing"); return
    bad = 0; reads, writes = [], []
    for i, f in enumerate(t.flat):
        e = f.e
        if f.g is FALSE: continue
        top = f.loops[0][0] if f.loops else None
        if e.kind == "pk":
            s, d = e.d["src"], e.d["dst"]
            if t.SRC in bases(s): reads.append((i, top, e))
            if t.DST in bases(d): writes.append((i, top, e))
            w = bases(d)
        elif e.kind == "call":
            a = e.d["args"]; k = MPIW.get(e.d["q"], ())
            w = set().union(*[bases(a[j]) for j in k if j < len(a)]) if k else set()
            if t.DST in w: writes.append((i, top, e))
            if any(t.SRC in bases(x) for j, x in enumerate(a) if j not in k): reads.append((i, top, e))
        elif e.kind in ("write", "copy", "copybuf"):
            x = e.d.get("mem", e.d.get("dst")); w = {x} if not isinstance(x, Ptr) else {x.base}
            if t.DST in w: writes.append((i, top, e))
        else: continue
        if t.SRC in w: bad = 1; ctx.check(False, name + ": the input array is only read", "%s writes to it" % e.kind, e.loc)
    for i, l, e in writes:
        late = [x for x in reads if x[0] > i or (l is not None and x[1] is l)]
        if late: bad = 1; ctx.check(False, name + ": everything is packed before the result is written, so that source and destination can be the same", "reads the source again at line %s" % late[0][2].loc[1], e.loc)
    if not bad: ctx.check(True, name + ": the input is only read, before the result is written")
def execu(ctx, p, cls, ci, D):
    c = execs.executor_ctors(p)[cls][ci]; nm = execs.cname(p, cls); fam = lines.family(nm)
    x = execs.Exec(p, c, (0, 1, 2), D, least=2 if "cos1" in nm else 1)
    if x.m.st.dead or any(e.e.kind == "throw" and e.g is TRUE for e in x.built): return
    for f in x.method("forward") + x.method("backward"):
        ty = [x.m.ty(q["t"])["s"].replace("std::", "") for q in f["params"]]
        if not ty[0].startswith("const"): continue
        effs, bs, ret = x.run(f)
        t = "%s(dims %s) %s(%s)" % (nm, ",".join(map(str, D)) or "all", f["n"], ", ".join(ty)); loc = (f["file"], f["line"])
        ok = True
        for e in effs:
            if e.g is FALSE: continue
            d = e.e.d
            if e.e.kind == "write" and d["mem"] is bs[0]: ok = False; ctx.check(False, t + ": the input array is only read", "stores to it", e.e.loc)
            if e.e.kind == "xform":
                if bs[0] in bases(d["dst"]): ok = False; ctx.check(False, t + ": the input array is only read", "the transform is done in the input array", e.e.loc)
                if bs[0] in bases(d["src"]):
                    for _, pl in lines.resolve(x, d["plan"]):
                        if pl is None: continue
                        fl = int(pl.flags.const) if isinstance(pl.flags, Poly) and pl.flags.is_const else 0
                        destroys = pl.q.startswith("fftw") and ((fl & 1) or (pl.kind == "c2r" and not fl & 16))
                        ok = ctx.check(not destroys, t + ": the vendor plan preserves its input", "plan %s flags %d" % (pl.kind, fl), pl.loc) and ok
        if ok: ctx.check(True, t + ": the input array is only read")
        ctx.absorb(x.m)
def public(ctx, p, c, ms):
    for f in ms:
        b = built(p, c); m = b.m
        cont = p.types[f["params"][0]["t"]]["k"] == "ref"
        if cont:
            n = P(T("size", T("sym", f["params"][0]["n"])))
            for s in ("in_shape", "out_shape"):
                v = ONE
                for t in __import__("planobj").sizes(s, 0 if s == "in_shape" else 3): v = v * P(t)
                m.facts.append(n - v)
        r = run_method(b, f, 1)
        name = "%s %s(%s)" % (short(p, c), f["n"], ", ".join(r.ptypes)); loc = (f["file"], f["line"])
        ctx.absorb(m)
        IN = T("sym", f["params"][0]["n"]) if cont else r.args[[i for i, x in enumerate(f["params"]) if p.types[x["t"]]["k"] == "ptr"][0]].base
        ok = True
        for x in r.effs:
            if x.g is FALSE: continue
            e = x.e; w = []
            if e.kind == "pipeline": w = list(zip(e.d["mem"][1:], ("the result of the transform", "the work space")))
            elif e.kind == "write": w = [(e.d["mem"], "a store")]
            elif e.kind in ("copy", "copybuf"): y = e.d.get("dst"); w = [(y.base if isinstance(y, Ptr) else y, "a copy")]
            for q, what in w:
                if q is IN: ok = False; ctx.check(False, name + ": the input array is only read", "%s goes to it" % what, e.loc)
        pt = [x for x in r.effs if x.e.kind == "pipeline"]
        ok = ctx.check(bool(pt) or cont, name + ": runs the transform", "", loc) and ok
        if ok: ctx.check(True, name + ": the input array is only read")
def run(ctx):
    ctx.rules = ["pipelines, out-of-place, per stage pattern: no copy, redistribution result or work space, and no array passed as non-const to a local transform is the input array",
                 "redistributions, per plan: no pack, MPI receive or store goes to the source; every read of the source precedes every write of the destination (so that in-place use is safe)",
                 "local transforms with a const input: no store to it, the vendor transform is not in place and its plan preserves the input",
                 "public calls: neither the transform, its work space nor scaling touches the input argument"]
    ctx.assumptions = ["vendor transforms write only their destination, except FFTW complex-to-real and FFTW_DESTROY_INPUT plans", "packing writes only its destination (P01)"]
    p = program("int")
    its = [("pipe", x) for x in items(p, ctx.tier) if not x[1].alias]
    if len(its) < 200: raise AnchorMissing("pipelines")
    its += [("resh", c) for c in reshape.configs(ctx.tier)]
    ex = execs.executor_ctors(p)
    for cls, cs in ex.items():
        for ci, c in enumerate(cs):
            nd = sum(1 for x in c["params"] if p.types[x["t"]]["k"] == "int")
            for d in ([(i,) for i in range(3)] if nd == 1 else list(itertools.permutations(range(3), 2)) if nd == 2 else [()]): its.append(("exec", (cls, ci, d)))
    for cls in sorted({f["cls"] for f in methods(p)}):
        c = [c for c in ctors(p) if c["cls"] == cls and not delegates(c)][0]
        ms = [f for f in methods(p) if f["cls"] == cls]
        for i in range(0, len(ms), 6): its.append(("public", (c, ms[i:i + 6])))
    fn = {"pipe": pipe, "exec": execu, "public": public}
    ctx.parallel(its, lambda ctx, it: resh(ctx, p, it[1]) if it[0] == "resh" else fn[it[0]](ctx, p, *it[1]))
