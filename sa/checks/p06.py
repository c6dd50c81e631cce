"""P06: ownership of communicators, groups, vendor plans and C handles."""
from reshape import *
from checks import p20 as c20
from checks.p05 import walk, mpi_sites
import re
TITLE = "Communicators, groups, vendor plans and C handles are released exactly once"
TECHNIQUE = "ownership (typestate) analysis: creation and release effects of every owning class, census of release, allocation and copy sites in the syntax tree"
RELEASE = {"MPI_Comm_free": "comm", "fftw_destroy_plan": "fftw", "fftwf_destroy_plan": "fftwf", "fftwl_destroy_plan": "fftwl", "DftiFreeDescriptor": "dfti", "MPI_Group_free": "group", "MPI_Type_free": "type", "MPI_Request_free": "request",
           "MPI_Win_free": "win", "MPI_Op_free": "op", "MPI_Info_free": "info", "fftw_free": "fftwmem", "fftwf_free": "fftwmem", "mkl_free": "mklmem"}
def creates(q):
    if re.match(r"fftw_plan_|fftw_plan$", q): return "fftw"
    if re.match(r"fftwf_plan_", q): return "fftwf"
    if q.startswith("DftiCreateDescriptor") or q.startswith("DftiCopyDescriptor"): return "dfti"
    if q in ("MPI_Comm_create", "MPI_Comm_dup", "MPI_Comm_split", "MPI_Comm_create_group", "MPI_Comm_split_type", "MPI_Cart_create", "MPI_Comm_idup"): return "comm"
    if q in ("MPI_Comm_group", "MPI_Group_incl", "MPI_Group_excl", "MPI_Group_union", "MPI_Group_intersection", "MPI_Group_difference", "MPI_Group_range_incl"): return "group"
    if q in ("MPI_Type_contiguous", "MPI_Type_vector", "MPI_Type_create_struct", "MPI_Type_create_subarray", "MPI_Type_indexed"): return "type"
    return None
def tx(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
def handle(e):
    """what a release or creation call works on"""
    d = e.e.d
    k = RELEASE.get(d["q"])
    if k in ("comm", "group", "type", "request", "win", "op", "info"):
        v = (d.get("pointees") or [None])[0]
        return tx(v) if v is not None else tx(d["args"][0])
    return tx(d["args"][0])
FIELD = re.compile(r"^&?this\.(\w+)$")
def fieldname(s):
    mo = FIELD.match(s)
    return mo.group(1) if mo else None
def short(p, rid): return p.recs[rid]["s"].replace("heffte::", "").replace("backend::", "")
def releases(m): return [e for e in flatten(m.rec) if e.e.kind == "call" and e.e.d["q"] in RELEASE]
def dtors(p): return [f for f in p.fns.values() if f["k"] == "dtor" and f.get("body") is not None and f.get("ours")]

def owners(p):
    """classes whose destructor releases something: class id -> (destructor, machine, release effects)"""
    out = {}
    for d in dtors(p):
        m = machine(p); call(m, d)
        r = releases(m)
        if r: out[d["cls"]] = (d, m, r)
    return out
def owner(ctx, p, rid, d, m, rel):
    nm = short(p, rid); loc = (d["file"], d["line"]); ctx.absorb(m)
    ctx.check(len(rel) == 1, nm + ": the destructor releases one resource once", [tx(e.e.d["q"]) for e in rel], loc)
    e = rel[0]; F = fieldname(handle(e)); k = RELEASE[e.e.d["q"]]
    if not ctx.check(F is not None, nm + ": the destructor releases the object's own resource", "%s(%s)" % (e.e.d["q"], handle(e)), e.e.loc): return None
    ok = e.g is TRUE
    if not ok:      # released if it is not the null handle
        s = bd_support(e.g)
        ok = len(s) == 1 and ("this." + F) in show(s[0] if isinstance(s, list) else next(iter(s)))
    ctx.check(ok and not e.loops, nm + ": the resource is released on every destruction", "only if %s%s" % (show(e.g), " in a loop" if e.loops else ""), e.e.loc)
    # construction
    cts = [f for f in p.fns.values() if f["k"] == "ctor" and f.get("cls") == rid and f.get("body") is not None and f.get("ours") and not is_copy(p, f) and f["file"] != "" and not f.get("defaulted")]
    passed = []
    for c in cts:
        if any(i.get("deleg") for i in c.get("inits") or []): continue
        w = nm + " constructor (line %s)" % c["line"]; cl = (c["file"], c["line"])
        mm = machine(p); this = this_obj(mm, rid); call(mm, c, this=this); ctx.absorb(mm)
        fl = flatten(mm.rec)
        mk = [x for x in fl if x.e.kind == "call" and creates(x.e.d["q"])]
        o = mm.st.s.get(this.base)
        v = mm.objfield(o, F) if isinstance(o, Obj) else None
        if not mk:
            pn = [x["n"] for x in c["params"]]
            s = tx(v)
            par = [n for n in pn if n and re.search(r"\b%s\b" % re.escape(n), s)]
            ctx.check(len(par) == 1, w + ": the resource is created here or handed over by the caller", "%s is %s" % (F, s), cl)
            passed.append((c, par[0] if par else None))
            continue
        tot = FALSE; twice = FALSE
        for x in mk:
            ctx.check(creates(x.e.d["q"]) == k, w + ": %s is released by the matching routine" % x.e.d["q"], "released by %s" % e.e.d["q"], x.e.loc)
            ctx.check(not x.loops, w + ": %s is called once" % x.e.d["q"], "called in a loop", x.e.loc)
            twice = bor(twice, band(tot, x.g)); tot = bor(tot, x.g)
        failed = FALSE
        for x in fl:
            if x.e.kind == "throw": failed = bor(failed, x.g)
        for x in fl:
            if x.e.kind == "call" and RELEASE.get(x.e.d["q"]) == k:
                ctx.check(implies(x.g, failed), w + ": the resource is kept unless the construction fails", "released if %s" % show(x.g), x.e.loc)
        ctx.check(twice is FALSE, w + ": no resource is created twice and lost", "%s" % [(x.e.d["q"], show(x.g)) for x in mk], cl)
        ctx.check(tot is TRUE, w + ": the resource is always created before it can be released", "created only if %s" % show(tot), cl)
        s = tx(v)
        into = all(fieldname(tx(x.e.d["args"][0])) == F for x in mk) if k == "dfti" else all(x.e.d["q"] in s for x in mk)
        ctx.check(into, w + ": the created resource is the one that is released", "%s is %s" % (F, s), cl)
        # exceptions after the creation leave no owner behind
        for x in fl:
            if x.e.kind != "throw": continue
            lit = show(x.g)
            g = x.g
            for a in bd_support(g):
                if any("(" + q.e.d["q"] in show(a) for q in mk): g = mm.restrict(g, a, a.op != "isnull")     # the creation succeeded
            failed = g is FALSE
            ctx.check(failed, w + ": no resource is lost when construction fails later", "error raised if %s" % lit[:200], x.e.loc, key="%s: resource lost when construction fails" % p.recs[rid]["q"].split("<")[0])
    if not cts: raise AnchorMissing("constructor of " + nm)
    # the handle is not overwritten
    for f in p.fns.values():
        if f.get("body") is None or not f.get("ours"): continue
        if f["k"] == "ctor" and f.get("cls") == rid: continue
        for n in walk(f["body"]):
            if n.get("k") == "asg":
                l = n.get("l_") or n.get("a") or n.get("lhs") or n.get("x")
                if isinstance(l, dict) and l.get("k") == "mem" and l.get("n") == F and l.get("d") in fielddecls(p, rid):
                    ctx.check(False, nm + ": the resource is not replaced after construction", "%s is assigned in %s" % (F, f["q"]), (f["file"], n.get("l", f["line"])))
    ctx.ok(nm + ": the resource is not replaced after construction")
    return F, k, passed
def fielddecls(p, rid): return {x["d"] for x in p.recs[rid]["fields"]}
def is_copy(p, f):
    if len(f["params"]) != 1: return False
    t = p.types[f["params"][0]["t"]]
    if t["k"] != "ref": return False
    y = p.types[t["el"]]
    return y.get("rec") == f["cls"]

def uses(p):
    """copies of objects: [(class, function, line, callee)]"""
    out = []
    for f in p.fns.values():
        if (f.get("body") is None and not f.get("inits")): continue
        for n in walk([f.get("body"), f.get("inits")]):
            g = p.fns.get(n.get("f")) if n.get("k") in ("ctor", "mcall", "ocall", "call") else None
            if g is None or g.get("cls") is None: continue
            if (g["k"] == "ctor" or g["n"] == "operator=") and is_copy(p, g): out.append((g["cls"], f, n.get("l", f["line"]), g))
    return out

def allocation(ctx, p, where):
    """every new expression is owned by a smart pointer or by a C handle"""
    for f in p.fns.values():
        if f.get("body") is None and not f.get("inits") or not f.get("ours"): continue
        if "/src/heffte_c.cpp" in f["file"]: continue
        owned = set(); locs = {}
        def scan(n, own):
            if isinstance(n, list):
                for x in n: scan(x, own)
                return
            if not isinstance(n, dict): return
            k = n.get("k")
            if k == "new":
                if n.get("place"): return
                locs[id(n)] = n
                if own: owned.add(id(n))
                for x in n.values(): scan(x, False)
                return
            if k in ("ctor", "mcall", "ocall"):
                g = p.fns.get(n.get("f"))
                cls = p.recs.get(g["cls"]) if g is not None and g.get("cls") is not None else None
                smart = cls is not None and normq(cls["q"]) in ("std::unique_ptr", "std::shared_ptr", "std::__uniq_ptr_impl", "std::__uniq_ptr_data")
                for x in n.values(): scan(x, smart)
                return
            keep = own and k in ("cast", "paren", "temp", "bind", "expr", "mat", "cond", "full")
            for x in n.values(): scan(x, keep)
        for i in (f.get("inits") or []):
            t = None
            if i.get("field") is not None or i.get("n"):
                cls = p.recs.get(f.get("cls")) or {}
                for x in cls.get("fields", []):
                    if x["n"] == i.get("n") or x["d"] == i.get("d"): t = p.types[x["t"]]
            scan(i, False)
        scan(f.get("body"), False)
        # a raw local that later goes into a smart pointer
        loose = [n for k, n in locs.items() if k not in owned]
        if loose:
            m = machine(p)
            smart = any(x.get("k") in ("ctor", "mcall") and p.fns.get(x.get("f")) and p.fns[x["f"]].get("cls") is not None and normq(p.recs[p.fns[x["f"]]["cls"]]["q"]) == "std::unique_ptr" and x.get("a") and p.types[x["a"][0].get("t", 0)].get("k") == "ptr" for x in walk(f["body"]))
            for n in loose:
                ctx.check(smart, "%s line %s: the allocated object is owned" % (f["n"], n.get("l")), "result of new is kept in a raw pointer", (f["file"], n.get("l", f["line"])))
        for k in owned: ctx.ok("%s line %s: the allocated object is owned by a smart pointer" % (f["n"], locs[k].get("l")))

def owned_callers(p, f, oc, k, depth=0):
    """every caller is the constructor of an owner (or a helper called by one)"""
    cs = [g for g in p.fns.values() if (g.get("body") is not None or g.get("inits")) and any(n.get("f") == f["id"] and n.get("k") in ("call", "mcall") for n in walk([g.get("body"), g.get("inits")]))]
    return depth < 6 and bool(cs) and all(g["k"] == "ctor" and oc.get(g.get("cls")) == k or g["k"] != "ctor" and owned_callers(p, g, oc, k, depth + 1) for g in cs)
def creation(ctx, p, own):
    """what is created is created by the constructor of an owner, or by a function that releases it or hands it to its caller"""
    oc = {r: RELEASE[x[2][0].e.d["q"]] for r, x in own.items()} if own is not None else {}
    for f in p.fns.values():
        if f.get("body") is None and not f.get("inits"): continue
        for n in walk([f.get("body"), f.get("inits")]):
            if n.get("k") != "call" or n.get("f") not in p.fns: continue
            q = p.fns[n["f"]]["q"]; k = creates(q)
            if k is None or k in ("group", "comm"): continue       # decided by groups and factory
            if own is None and f.get("cls") is not None: continue  # instantiated in the main program too
            ctx.check(oc.get(f.get("cls")) == k or f["k"] != "ctor" and owned_callers(p, f, oc, k), "%s: the resource of %s has an owner" % (f["q"].replace("heffte::", ""), q), "no destructor of the class releases it" if f["k"] == "ctor" else "created outside the constructor of an owner", (f["file"], n.get("l", f["line"])))

def groups(ctx, p):
    """functions that create groups release them"""
    n = 0; done = set()
    for f, q, l in mpi_sites(p):
        if creates(q) != "group" or f["id"] in done: continue
        done.add(f["id"]); n += 1
        m = machine(p); r = call(m, f); ctx.absorb(m)
        fl = [e for e in flatten(m.rec) if e.e.kind == "call"]
        loc = (f["file"], f["line"])
        made = {}
        for i, e in enumerate(fl):
            if creates(e.e.d["q"]) == "group":
                a = e.e.d["args"][-1]
                made[i] = (e, tx(a))
        for i, (e, cell) in made.items():
            w = "%s: the group of %s" % (f["n"], e.e.d["q"])
            fr = [(j, x) for j, x in enumerate(fl) if j > i and x.e.d["q"] == "MPI_Group_free" and tx(x.e.d["args"][0]) == cell]
            nxt = [j for j, (x, c) in made.items() if j > i and c == cell]
            if nxt: fr = [y for y in fr if y[0] < min(nxt)]
            tot = FALSE; dup = FALSE
            for j, x in fr: dup = bor(dup, band(tot, x.g)); tot = bor(tot, x.g)
            ctx.check(tot is e.g or implies(e.g, tot), w + " is released on every path", "released only if %s" % show(tot), e.e.loc)
            ctx.check(dup is FALSE and not any(x.loops for j, x in fr), w + " is released once", "%d releases" % len(fr), fr[-1][1].e.loc if fr else e.e.loc)
            val = None
            for j, x in fr:
                val = tx(x.e.d["pointees"][0])
                late = [y for y in fl[j + 1:] if y.e.d["q"].startswith("MPI_") and y.e.d["q"] != "MPI_Group_free" and any(tx(a) == val or "out:MPI_Group_free" in tx(a) for a in y.e.d["args"])]
                ctx.check(not late, w + " is not used after its release", [y.e.d["q"] for y in late], x.e.loc)
        for e in fl:
            if e.e.d["q"] == "MPI_Group_free":
                ctx.check(tx(e.e.d["args"][0]) in [c for _, c in made.values()], "%s: only groups created here are released" % f["n"], tx(e.e.d["args"][0]), e.e.loc)
            if e.e.d["q"] in RELEASE and RELEASE[e.e.d["q"]] == "comm":
                ctx.check(False, "%s: the new communicator is handed to its user" % f["n"], "released right away", e.e.loc)
        # communicators created here are returned
        for e in fl:
            if creates(e.e.d["q"]) == "comm":
                ctx.check(re.fullmatch(r"&?out:%s#\d+" % e.e.d["q"], tx(r)) is not None, "%s: the new communicator is returned" % f["n"], tx(r), e.e.loc)
    if not n: raise AnchorMissing("creation of groups")

def factory(ctx, p, c, own):
    t = get_trace(p, c); ctx.absorb(t.m); nm = cname(c); m = t.m
    mk = [e for e in flatten(t.make_effs) if e.e.kind == "call" and creates(e.e.d["q"]) == "comm"]
    loc = (t.f["file"], t.f["line"])
    cls = None
    for e in flatten(t.make_effs):
        if e.e.kind == "new" and e.e.d.get("rec") is not None: cls = e.e.d["rec"]
    if t.null:
        ctx.check(t.case["group"] == "empty" or not mk, nm + ": the communicator is null when no object owns it", "communicator created for a non-empty group without owner", loc); return
    chain = bases(p, cls)
    rel = [own[b] for b in chain if b in own]
    if not mk:
        ctx.check(not rel, nm + ": a communicator that was not created for this object is not released by it", [r[0] for r in rel], loc); return
    if not ctx.check(len(mk) == 1 and len(rel) == 1, nm + ": the created communicator has one owner", "%d created, %d released by the destructor" % (len(mk), len(rel)), loc): return
    F = rel[0][0]
    o = m.st.s.get(t.ret.base)
    v = tx(m.objfield(o, F)) if isinstance(o, Obj) else "?"
    ctx.check(re.fullmatch(r"&?out:MPI_Comm_\w+#\d+", v) is not None, nm + ": the object owns the communicator created for it", "%s is %s" % (F, v), loc)
    d = [f for f in p.fns.values() if f["k"] == "dtor" and f.get("cls") == cls]
def bases(p, rid):
    out = []; w = [rid]
    while w:
        r = w.pop()
        if r in out or r not in p.recs: continue
        out.append(r); w += p.recs[r].get("bases") or []
    return out

def run(ctx):
    p = program("int")
    ctx.rules = ["owning classes are those whose destructor calls a release routine", "per owner: one release of one field on every destruction, the field is created exactly once by the matching routine on every path of every constructor, never reassigned",
                 "owners are never copied or moved; plan objects of applications are not copyable", "release routines are called only in destructors or for resources created in the same function", "objects deleted through a base class have virtual destructors",
                 "every new expression is owned by a smart pointer; C handles own exactly one plan object"]
    ctx.assumptions = ["smart pointers and containers of the standard library release what they own", "MPI_Comm_create returns MPI_COMM_NULL on ranks outside the group, which needs no release"]
    own = owners(p)
    if len(own) < 4: raise AnchorMissing("owning classes (found %s)" % [short(p, r) for r in own])
    fields = {}
    for rid, (d, m, rel) in sorted(own.items()):
        r = owner(ctx, p, rid, d, m, rel)
        if r: fields[rid] = r
    # copies
    us = uses(p)
    by = {}
    for cls, f, l, g in us: by.setdefault(cls, []).append((f, l, g))
    for rid in sorted(own):
        bad = [x for x in by.get(rid, []) if not p.recs[rid].get("copydel")]
        ctx.check(not bad, short(p, rid) + ": never copied", "%s is called in %s" % (bad[0][2]["q"], bad[0][0]["q"]) if bad else "", (bad[0][0]["file"], bad[0][1]) if bad else None)
        # by-value members and parameters would copy as well
        for r2 in p.recs.values():
            if not r2.get("ours"): continue
            for x in r2.get("fields", []):
                y = p.types[x["t"]]
                if y.get("rec") == rid: ctx.check(r2.get("copydel") or not by.get(r2["id"]), "%s: never copied as a member of %s" % (short(p, rid), r2["q"]), "copied", (r2["file"], x["line"]))
    holders = 0
    for r in p.recs.values():
        if r["q"].split("<")[0] in ("heffte::fft3d", "heffte::fft3d_r2c"):
            holders += 1
            ctx.check(r.get("copydel") and r.get("asgdel"), short(p, r["id"]) + ": cannot be copied", "copy constructor %s, assignment %s" % ("deleted" if r.get("copydel") else "available", "deleted" if r.get("asgdel") else "available"), (r["file"], r["line"]))
    if holders < 4: raise AnchorMissing("fft3d classes")
    # release through base classes
    derived = {}
    for r in p.recs.values():
        for b in bases(p, r["id"]):
            if b != r["id"]: derived.setdefault(b, []).append(r["id"])
    nv = 0
    for r in list(p.recs.values()):
        if normq(r["q"]) != "std::unique_ptr" or not r.get("tat"): continue
        y = p.types[r["tat"][0]] if r["tat"][0] is not None else None
        b = y.get("rec") if y else None
        if b is None or b not in derived or not p.recs[b].get("ours"): continue
        nv += 1
        dt = p.fns.get(p.recs[b].get("dtor"))
        ctx.check(dt is not None and dt.get("virtual"), "%s: objects of derived classes are destroyed through a virtual destructor" % short(p, b), "the destructor is not virtual", (p.recs[b]["file"], p.recs[b]["line"]))
    if nv < 2: raise AnchorMissing("polymorphic owners")
    # census of release calls
    ok_rel = {own[r][0]["id"] for r in own}
    units = [p, unit("src/heffte_c.cpp", "c"), unit("src/heffte_plan_logic.cpp", "planlogic"), unit("src/heffte_reshape3d.cpp", "rs"), unit("src/heffte_compute_transform.cpp", "ct")]
    seen = set()
    for pu in units:
        callers = {}
        for f in pu.fns.values():
            if f.get("body") is None and not f.get("inits"): continue
            for n in walk([f.get("body"), f.get("inits")]):
                if n.get("k") in ("call", "mcall", "ocall", "ctor") and n.get("f") in pu.fns: callers.setdefault(n["f"], []).append((f, n))
        for fid, cs in callers.items():
            q = pu.fns[fid]["q"]
            if q not in RELEASE: continue
            for f, n in cs:
                key = (f["file"], n.get("l"), q)
                if key in seen: continue
                seen.add(key)
                w = "%s:%s: %s" % (f["file"].split("/")[-1], n.get("l"), q)
                local = any(x.get("k") == "call" and x.get("f") in pu.fns and creates(pu.fns[x["f"]]["q"]) == RELEASE[q] for x in walk(f["body"]))
                def indtor(f, depth=0):
                    if f["k"] == "dtor": return True
                    up = callers.get(f["id"], [])
                    return depth < 6 and bool(up) and all(indtor(g, depth + 1) for g, _ in up)
                ctx.check(local or indtor(f) or not callers.get(f["id"]) and "comm_free" in f["q"], w + " is called by the destructor of the owner or where the resource was created", "called in %s" % f["q"], (f["file"], n.get("l", f["line"])))
    for pu in units: creation(ctx, pu, own if pu is p else None)
    for pu in units[:1]: allocation(ctx, pu, "")
    groups(ctx, p)
    jobs = []
    for which in ("alltoall", "alltoallv", "pointtopoint"):
        for alg in ALGS[which]:
            for index in ("int", "long long"):
                for packer, a, b in (("direct_packer", (0, 1, 2), (0, 1, 2)), ("transpose_packer", (0, 1, 2), (2, 0, 1))):
                    al = alg if which == "pointtopoint" else None
                    for k in [dict()] + ([dict(group="empty"), dict(group="empty", selfcomm=False, send=False, recv=False)] if which != "pointtopoint" else []):
                        jobs.append((which, al, packer, index, "double", a, b, k))
    cu = unit("src/heffte_c.cpp", "c")
    ctx.parallel(jobs + ["create0", "create1", "destroy"], lambda ctx, c: factory(ctx, p, c, fields) if not isinstance(c, str) else c20.destroy(ctx, cu) if c == "destroy" else c20.create(ctx, cu, int(c[-1])))
