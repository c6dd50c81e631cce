"""P14: vendor plans of the right direction, kind, precision and placement; created before use and once."""
from execs import *
import checks.p13 as lines
TITLE = "Vendor plans are created for the right direction, kind and precision"
TECHNIQUE = "typestate and value-flow analysis of the plan objects: symbolic abstract interpretation of every executor method, plan creation tied to plan execution"
LEVEL = "proof"
KINDS = {("cos", "forward"): 5, ("cos", "backward"): 4, ("sin", "forward"): 9, ("sin", "backward"): 8, ("cos1", "forward"): 3, ("cos1", "backward"): 3, ("sin1", "forward"): 7, ("sin1", "backward"): 7}
def expected_kind(fam, via, f):
    if fam == "r2r": return ("r2c" if f == "forward" else "c2r") if via else "r2r"
    if fam == "r2c": return "r2c" if f == "forward" else "c2r"
    return "c2c"
def describe(x, fl, with_plan=True):
    d = fl.e.d
    out = []
    for g, pl in lines.resolve(x, d["plan"]):
        out.append((show(g), None if pl is None else (pl.kind, pl.sign, pl.prec, tuple(tuple(map(show, t)) for t in pl.dims or ()), tuple(map(show, pl.batch or ())), pl.kinds and tuple(pl.kinds))))
    return tuple(out), tuple((show(n.op) if False else "", show(N)) for n, N in fl.loops), fl.e.d["fn"]
def one(ctx, it):
    pr, cls, ci, D = it
    p = program(pr); c = executor_ctors(p)[cls][ci]; nm = cname(p, cls); fam = lines.family(nm)
    x = Exec(p, c, (0, 1, 2), D, least=2 if "cos1" in nm else 1)
    if x.m.st.dead or any(e.e.kind == "throw" and e.g is TRUE for e in x.built): return
    name = "%s(dims %s)" % (nm, ",".join(map(str, D)) or "all")
    first = {}
    ms = x.method("forward") + x.method("backward")
    for rnd, seq in enumerate((ms, ms[::-1])):
        for f in seq:
            ty = [x.m.ty(q["t"])["s"].replace("std::", "") for q in f["params"]]
            n0 = len(x.plans); vendor0 = [k for k, v in x.plans.items() if not v.q.startswith("heffte::")]
            effs, bases, ret = x.run(f)
            made = [v for k, v in list(x.plans.items())[n0:] if not v.q.startswith("heffte::")]
            xs = [e for e in effs if e.e.kind == "xform"]
            if not xs: continue
            t = "%s %s(%s)" % (name, f["n"], ", ".join(ty)); loc = (f["file"], f["line"])
            prec = lines.bits(ty[0])
            sig = [describe(x, e) for e in xs]
            if rnd == 0: first[f["id"]] = sig
            else:
                ctx.check(not made, t + ": later executions create no plan", "%d plans created" % len(made), loc)
                ctx.check(first.get(f["id"]) == sig, t + ": later executions perform the same transform", "%s / %s" % (first.get(f["id"]), sig), loc)
                continue
            for e in xs:
                d = e.e.d
                for g, pl in lines.resolve(x, d["plan"]):
                    xl = e.e.loc
                    if not ctx.check(pl is not None and pl.kind is not None, t + ": the plan exists before it is used", txt(d["plan"]), xl): continue
                    via = fam == "r2r" and pl.kind != "r2r"
                    want = expected_kind(fam, via, f["n"])
                    ctx.check(pl.kind == want and d.get("xkind") in (None, want), t + ": transform kind", "plan %s, executed as %s, expected %s" % (pl.kind, d.get("xkind"), want), pl.loc)
                    ctx.check(pl.prec == prec and d.get("prec") in (None, prec), t + ": precision", "%s for %s data" % (pl.prec, prec), pl.loc)
                    if pl.kind == "r2r":
                        k = KINDS[(re.search(r"cpu_(\w+?)_pre", nm).group(1), f["n"])]
                        ctx.check(pl.kinds and all(z == k for z in pl.kinds), t + ": kind of the sine/cosine transform", "%s instead of %s" % (pl.kinds, k), pl.loc)
                    else:
                        s = -1 if f["n"] == "forward" else 1
                        ctx.check(pl.sign == s and d.get("sign") in (None, s), t + ": sign of the exponent", "%s, executed %s, expected %d" % (pl.sign, d.get("sign"), s), pl.loc)
                    inplace = d["src"].base is d["dst"].base and d["src"].off is d["dst"].off
                    const_in = ty[0].startswith("const") and d["src"].base is bases[0]
                    if pl.q.startswith("fftw"):
                        fl = int(pl.flags.const) if isinstance(pl.flags, Poly) and pl.flags.is_const else None
                        if not ctx.check(fl is not None, t + ": planner flags are constants", txt(pl.flags), pl.loc): continue
                        ctx.check(fl & 64 or fl & (1 << 21), t + ": planning does not touch the arrays", "flags %d" % fl, pl.loc)
                        ctx.check((pl.placement == "in") == inplace, t + ": the plan is executed with the placement it was created for", "created %s-place, executed %s-place" % (pl.placement, "in" if inplace else "out-of"), pl.loc)
                        ctx.check(not (const_in and fl & 1), t + ": the plan preserves a constant input", "flags %d" % fl, pl.loc)
                        if want != "r2r": ctx.check(fl & 2, t + ": the plan can be executed on arrays of any alignment", "FFTW_UNALIGNED is not set, executed on %s offset by whole elements of %s precision" % (ty[0], prec), pl.loc,
                                  key="alignment of %s plans, %s precision" % (want, prec))
                    elif pl.q.startswith("Dfti"):
                        ctx.check(pl.committed and not getattr(pl, "late", False), t + ": the descriptor is configured, then committed", "committed %s" % pl.committed, pl.loc)
                        ctx.check((pl.place == 43) == inplace, t + ": the plan is executed with the placement it was created for", "placement %s" % pl.place, pl.loc)
                        for k, w in ((4, "forward"), (5, "backward")):
                            ctx.check(k not in pl.set or pl.set[k] is ONE, t + ": no %s scale is applied by the vendor" % w, txt(pl.set.get(k)), pl.loc)
                        if pl.kind != "c2c":
                            ctx.check(isinstance(pl.set.get(10), Poly) and pl.set[10] is P(39), t + ": half-spectra are stored as complex numbers", txt(pl.set.get(10)), pl.loc)
                    else:
                        ctx.check((pl.placement == "in") == inplace, t + ": arrays match the transform", "", xl)
    ctx.absorb(x.m)
def run(ctx):
    ctx.rules = ["every execution of a vendor plan: the plan object is created on all paths before; kind, sign, precision and placement of the plan equal those of the calling function and of the arrays",
                 "all methods executed in both orders on one object: no plan is created twice, and the transforms are the same as the first time",
                 "FFTW: planner flags neither touch nor destroy the arrays, and allow the alignment of the arrays; MKL: complex storage, no vendor scaling, committed before use and not reconfigured"]
    ctx.assumptions = ["FFTW uses no aligned vector instructions for real-to-real transforms", "vendor documentation: FFTW new-array execute functions need the placement and alignment of the planning arrays (unless FFTW_UNALIGNED); arrays passed to heFFTe are aligned to their element type only"]
    its = []
    for pr in (("int", "long long") if ctx.tier == "thorough" else ("int",)):
        p = program(pr)
        ex = executor_ctors(p)
        if len(ex) < 10: raise AnchorMissing("local transform classes: %d" % len(ex))
        for cls, cs in ex.items():
            for ci, c in enumerate(cs):
                nd = sum(1 for x in c["params"] if p.types[x["t"]]["k"] == "int")
                for d in ([(i,) for i in range(3)] if nd == 1 else [(0, 1), (1, 2), (0, 2)] if nd == 2 else [()]): its.append((pr, cls, ci, d))
    ctx.parallel(its, one)
