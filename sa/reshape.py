"""Common set-up for the redistribution checks: symbolic layouts and the models of box algebra, packers and MPI queries."""
from harness import *

def box_key(v):
    return v.base if isinstance(v, Obj) else None
def rank_of(key):
    """(vector name, rank poly) of a box term idx(idx-vector, n)"""
    if key is not None and key.op == "idx" and isinstance(key.args[1], Poly): return key.args[0], key.args[1]
    return None

def vecname(v):
    """name of a symbolic vector of boxes"""
    if isinstance(v, VFn) and isinstance(v.body, Obj) and v.body.base is not None and v.body.base.op == "idx": return v.body.base.args[0]
    return None
SELF = {}      # side term -> own rank is the last entry (poly) / not a member (None)
def npeers(S): return P(T("npeers", S)) + 1
def pair_terms(ka, kb):
    ra, rb = rank_of(ka), rank_of(kb)
    if ra and rb and show(ra[0]) > show(rb[0]): return (kb, ka)
    return (ka, kb)
def isin(S, v):
    """rank v exchanges data on this side"""
    return bnot(batom(T("ovempty", *pair_terms(S.args[0], T("idx", S.args[1], v)))))
def mk_peer(S, i):
    i = P(i)
    if SELF.get(S) is not None and i is npeers(S) - 1: return SELF[S]
    t = i.atom_term()
    if t is not None and t.op == "pos" and t.args[0] is S: return P(t.args[1])
    return P(T("peer", S, i))
def mk_pos(S, v):
    v = P(v)
    if SELF.get(S) is not None and v is SELF[S]: return npeers(S) - 1
    t = v.atom_term()
    if t is not None and t.op == "peer" and t.args[0] is S: return P(t.args[1])
    return P(T("pos", S, v))
def _peer_eq(p):
    for k, c in p.m.items():
        if len(k) == 1 and k[0][1] == 1 and c in (1, -1):
            t = Term._byid[k[0][0]]
            if t.op == "peer":
                S, i = t.args
                v = (P(t) * c - p) * c
                if SELF.get(S, 0) is None and v is P(S.args[0].args[1]): return FALSE
                if any(x in deps(v) for x in deps(i) if x.op in ("n", "bound")): continue
                if not any(x.op in ("n", "bound") for x in deps(i)) : continue
                return band(isin(S, v), eq0(i - mk_pos(S, v)))
    return None
dom.LOWER["ovsize"] = 1; dom.LOWER["ovcount"] = 1
dom.EQRULE.append(_peer_eq)
dom.UPPER["pos"] = lambda t: npeers(t.args[0]) - 1
dom.REBUILD["peer"] = mk_peer
dom.REBUILD["pos"] = mk_pos

def plan_spec(m, own, other, ov, transpose):
    """offset, sizes and packing plan of the part 'ov' of 'own' exchanged with 'other'"""
    o = [int(x.const) for x in m.objfield(own, "order").el]
    q = [int(x.const) for x in m.objfield(other, "order").el]
    sz = m.objfield(own, "size").el; low = m.objfield(own, "low").el
    osz = m.objfield(ov, "size").el; olow = m.objfield(ov, "low").el
    line = sz[o[0]]; plane = sz[o[0]] * sz[o[1]]
    off = (olow[o[2]] - low[o[2]]) * plane + (olow[o[1]] - low[o[1]]) * line + (olow[o[0]] - low[o[0]])
    d = {"size": [osz[o[0]], osz[o[1]], osz[o[2]]], "line_stride": line, "plane_stride": plane}
    if transpose:
        d["buff_line_stride"] = osz[q[0]]; d["buff_plane_stride"] = osz[q[0]] * osz[q[1]]
        d["map"] = [P(o.index(q[j])) for j in range(3)]
    return off, osz[0] * osz[1] * osz[2], d

class Layouts:
    """hooks and symbolic values shared by the redistribution checks.
    boxes in the two vectors are opaque objects identified by (vector, rank); intersections are identified by the pair."""
    def __init__(self, p, index, oin, oout, extra=None, group="nonempty", selfcomm=True, send=True, recv=True):
        self.group = group; self.selfcomm = selfcomm; self.send = send; self.recv = recv; self.used = []
        self.p = p; self.index = index
        self.oin = oin; self.oout = oout
        self.me = T("sym", "me"); self.np = T("sym", "nprocs")
        mark_nonneg(self.me); mark_nonneg(self.np)
        H = self.hooks = {}
        H["heffte::box3d::collide"] = self.h_collide
        H["heffte::box3d::empty"] = self.h_empty
        H["heffte::box3d::count"] = self.h_count
        H["heffte::mpi::comm_rank"] = self.h_rank
        H["heffte::mpi::comm_size"] = self.h_size
        H["heffte::a2a_group"] = self.h_group
        H["heffte::compute_overlap_map_direct_pack"] = self.h_builder
        H["heffte::compute_overlap_map_transpose_pack"] = self.h_builder
        H["heffte::count_collisions"] = self.h_collisions
        for cls in ("direct_packer", "transpose_packer"):
            for op in ("pack", "unpack"):
                H["heffte::%s::%s" % (cls, op)] = self.h_pack
        if extra: H.update(extra)
        self.m = m = machine(p, H)
        m.facts = [P(self.me), P(self.np) - 1, P(self.np) - P(self.me) - 1]
    def boxrec(self):
        for r in self.p.recs.values():
            if normq(r["q"]) == "heffte::box3d":
                ta = r.get("ta") or r.get("targs")
                if self.index in str(r.get("ta") or r.get("s") or r): return r
        raise AnchorMissing("box3d")
    def boxes(self, m, vt, name, order):
        """symbolic vector of boxes"""
        n = fresh_index("v")
        et = m.eltype(vt)
        base = T("sym", name)
        bt = T("idx", base, P(n))
        o = m.sym(et, bt)
        if not isinstance(o, Obj): raise AnchorMissing("box3d type")
        of = m.objfield(o, "order")
        if not isinstance(of, VElems): raise AnchorMissing("box3d::order")
        o = o.with_("order", VElems(of.et, of.es, [P(x) for x in order]))
        return VFn(et, m.size(et), P(self.np), n, o, None)
    # ---- models
    def overlap(self, m, a, b):
        ka, kb = box_key(a), box_key(b)
        if ka is None or kb is None: return NotImplemented
        pair = (ka, kb)
        ra, rb = rank_of(ka), rank_of(kb)
        if ra and rb and show(ra[0]) > show(rb[0]): pair = (kb, ka)
        t = T("ovl", *pair)
        low = m.objfield(a, "low"); order = m.objfield(a, "order")
        if not isinstance(low, VElems): return NotImplemented
        lo = [P(T("ovlow", P(k), *pair)) for k in range(3)]
        sz = [P(T("ovsize", P(k), *pair)) for k in range(3)]   # extents of a non-empty intersection
        et, es = low.et, low.es
        return Obj(a.rec, {"low": VElems(et, es, lo), "high": VElems(et, es, [l + s - 1 for l, s in zip(lo, sz)]),
                           "size": VElems(et, es, sz), "order": order}, t)
    def h_collide(self, m, fn, this, a, n):
        x = m.read(this); y = m.read(a[0]) if isinstance(a[0], LV) else a[0]
        if not isinstance(x, Obj) or not isinstance(y, Obj): return NotImplemented
        return self.overlap(m, x, y)
    def h_empty(self, m, fn, this, a, n):
        x = m.read(this)
        k = box_key(x)
        if k is None: return NotImplemented
        if k.op == "ovl": return batom(T("ovempty", *k.args))
        if k.op in ("idx", "sym"): return batom(T("boxempty", k))
        return NotImplemented
    def h_count(self, m, fn, this, a, n):
        x = m.read(this)
        k = box_key(x)
        if k is None: return NotImplemented
        if k.op == "ovl":
            sz = m.objfield(x, "size").el
            return bd_poly(bnot(batom(T("ovempty", *k.args)))) * sz[0] * sz[1] * sz[2]   # noqa
        if k.op in ("idx", "sym"):
            t = T("boxcount", k); mark_nonneg(t)
            return P(t)
        return NotImplemented
    def h_rank(self, m, fn, this, a, n):
        if a and isinstance(a[0], Ptr) and a[0].base is self.comm.base: return P(self.me)
        t = T("commrank", m.term(a[0])); mark_nonneg(t)
        return P(t)
    def h_size(self, m, fn, this, a, n):
        if a and isinstance(a[0], Ptr) and a[0].base is self.comm.base: return P(self.np)
        t = T("commsize", m.term(a[0])); mark_nonneg(t)
        return P(t)
    def h_group(self, m, fn, this, a, n):
        self.group_args = [m.read(x) if isinstance(x, LV) else x for x in a]
        g = T("sym", "group"); s = T("size", g); mark_nonneg(s)
        et = m.eltype(m.ty(fn["ret"]))
        v = fresh_index("v"); e = T("idx", g, P(v))
        if self.group == "empty": return VElems(et, m.size(et), [])
        return VFn(et, m.size(et), P(s) + 1, v, P(e), None)
    def side(self, own, vec):
        nm = vecname(vec)
        if box_key(own) is None or nm is None: return None
        S = T("side", own.base, nm, "self" if self.selfcomm else "noself")
        SELF[S] = P(self.me) if self.selfcomm else None
        return S
    def nonempty(self, S):
        return self.selfcomm or (self.send if "INB" in show(S.args[0]) else self.recv)
    def h_collisions(self, m, fn, this, a, n):
        vec, ref = [m.read(x) if isinstance(x, LV) else x for x in a]
        S = self.side(ref, vec)
        if S is None: return NotImplemented
        return npeers(S) if self.nonempty(S) else ZERO
    def h_builder(self, m, fn, this, a, n):
        v = [m.read(x) if isinstance(x, LV) else x for x in a]
        S = self.side(v[2], v[3])
        if S is None or v[0] is not P(self.me) or v[1] is not P(self.np): return NotImplemented
        tr = "transpose" in fn["q"]
        if not self.nonempty(S): return UNDEF
        i = fresh_index("v"); q = mk_peer(S, P(i))
        other = vec_get(v[3], q)
        ov = self.overlap(m, v[2], other)
        off, cnt, d = plan_spec(m, v[2], other, ov, tr)
        for k, val in ((4, q), (5, off), (6, cnt), (7, None)):
            pt = m.ty(fn["params"][k]["t"]); vt = m.ty(pt["el"]); et = m.eltype(vt)
            if k == 7:
                z = m.zero(et)
                mp = z.f.get("map") if isinstance(z, Obj) else None
                s0 = m.objfield(z, "size"); mp = m.objfield(z, "map")
                f = {"size": VElems(s0.et, s0.es, d["size"]), "line_stride": d["line_stride"], "plane_stride": d["plane_stride"],
                     "buff_line_stride": d.get("buff_line_stride", ZERO), "buff_plane_stride": d.get("buff_plane_stride", ZERO),
                     "map": VElems(mp.et, mp.es, d.get("map", [ZERO] * 3))}
                val = Obj(z.rec, f, None)
            m.write(a[k], VFn(et, m.size(et), npeers(S), i, val, None))
        self.used.append((fn["q"], S))
        return UNDEF
    def h_pack(self, m, fn, this, a, n):
        op = fn["q"].rsplit("::", 1)[-1]
        cls = "transpose" if "transpose_packer" in fn["q"] else "direct"
        plan = m.read(a[1]) if isinstance(a[1], LV) else a[1]
        es = m.size(m.ty(fn["params"][2]["t"])["el"])
        g = m.st.g
        fl = self.planfields(m, plan)
        m.effect("pk", op=op, cls=cls, src=under(g, a[2]), dst=under(g, a[3]), es=es, fields={k: under(g, v) for k, v in fl.items()} if fl else None)
        return UNDEF
    def planfields(self, m, plan):
        if isinstance(plan, Obj):
            sz = m.objfield(plan, "size"); mp = m.objfield(plan, "map")
            return {"size": sz, "map": mp, **{k: m.objfield(plan, k) for k in ("line_stride", "plane_stride", "buff_line_stride", "buff_plane_stride")}}
        return None
    def make(self, f, args=None):
        m = self.m
        self.comm = None
        a = dict(args or {})
        vs = 0
        for i, x in enumerate(f["params"]):
            y = m.strip_ref(x["t"]) if hasattr(m, "strip_ref") else (m.ty(m.ty(x["t"])["el"]) if m.ty(x["t"])["k"] == "ref" else m.ty(x["t"]))
            if y["k"] == "rec" and m.is_vec(y):
                v = self.boxes(m, y, "INB" if vs == 0 else "OUTB", self.oin if vs == 0 else self.oout); vs += 1
                a[i] = m.temp(v); self.bx = getattr(self, "bx", []) + [v]
            elif "MPI_Comm" in y.get("s", "") or "ompi_communicator" in y.get("s", ""):
                self.comm = Ptr(T("sym", "comm"), (), None); a[i] = self.comm
            elif y["k"] == "ptr" and self.comm is None and x["n"] in ("comm",):
                self.comm = Ptr(T("sym", "comm"), (), None); a[i] = self.comm
        if vs != 2 or self.comm is None: raise AnchorMissing("parameters of " + f["q"])
        return call(m, f, a)

# ------------------------------------------------------------------ traces
SCALARS = {"float": 4, "double": 8, "std::complex<float>": 8, "std::complex<double>": 16}
ALGS = {"alltoall": ("alltoall",), "alltoallv": ("alltoallv",), "pointtopoint": ("p2p", "p2p_plined")}
class Trace: pass
def scalar_of(m, f):
    y = m.ty(m.ty(f["params"][1]["t"])["el"])
    return y["s"].replace("const ", "").strip()
def factories(p, which, packer, index):
    r = [f for f in fns(p, "heffte::make_reshape3d_" + which) if (f.get("ta") or [])[0:1] == ["heffte::tag::cpu"] and packer in f["ta"][1] and f["ta"][2] == index]
    if len(r) != 1: raise AnchorMissing("make_reshape3d_%s<cpu, %s, %s>" % (which, packer, index))
    return r[0]
def make_only(p, which, packer, index, oin, oout, alg=None, **case):
    f = factories(p, which, packer, index)
    L = Layouts(p, index, oin, oout, **case); m = L.m
    args = {}
    if alg is not None:
        for i, x in enumerate(f["params"]):
            if "reshape_algorithm" in m.ty(x["t"]).get("s", ""): args[i] = enum_value(p, "heffte::reshape_algorithm", alg)
    t = Trace()
    t.L = L; t.m = m; t.f = f; t.which = which; t.packer = packer; t.alg = alg
    t.case = dict(group="nonempty", selfcomm=True, send=True, recv=True); t.case.update(case)
    t.ret = L.make(f, args)
    t.make_effs = list(m.rec); m.rec = []
    t.me = P(L.me); t.boxes = L.bx
    return t
def enum_value(p, q, name):
    e = p.enums.get(q)
    if e is None: raise AnchorMissing(q)
    for x in e["vals"] if "vals" in e else e["e"]:
        nm, v = (x["n"], x["v"]) if isinstance(x, dict) else (x[0], x[1])
        if nm == name: return P(int(v))
    raise AnchorMissing(q + "::" + name)
def trace(p, which, packer, index, scalar, oin, oout, alg=None, **case):
    t = make_only(p, which, packer, index, oin, oout, alg, **case)
    m = t.m
    o = t.ret
    if isinstance(o, GV): raise AnchorMissing("result of make_reshape3d_%s is not decided: %r" % (which, o))
    if o is NULL or (isinstance(o, Ptr) and o.base.op == "null"):
        t.null = True; t.effs = []; return t
    t.null = False
    cls = m.p.recs[[e for e in t.make_effs if e.kind == "new"][-1].d["rec"]]
    al = [g for g in fns(p, "heffte::reshape3d_%s::apply" % which) if g["cls"] == cls["id"] and scalar_of(m, g) == scalar] if "id" in cls else []
    if not al:
        rid = [e for e in t.make_effs if e.kind == "new"][-1].d["rec"]
        al = [g for g in fns(p, "heffte::reshape3d_%s::apply" % which) if g["cls"] == rid and scalar_of(m, g) == scalar]
    if len(al) != 1: raise AnchorMissing("reshape3d_%s::apply for %s" % (which, scalar))
    g = al[0]; t.apply = g
    t.batch = T("sym", "batch_size"); mark_nonneg(t.batch)
    t.SRC = T("sym", "source"); t.DST = T("sym", "destination"); t.WS = T("sym", "workspace")
    m.facts = m.facts + [P(t.batch)]
    this = LV(o.base, o.path)
    call(m, g, {0: P(t.batch), 1: Ptr(t.SRC, (), ZERO), 2: Ptr(t.DST, (), ZERO), 3: Ptr(t.WS, (), ZERO)}, this=this)
    t.effs = list(m.rec); m.rec = []
    t.flat = flatten(t.effs)
    t.es = SCALARS[scalar]
    t.this = this
    return t
CASES_V = [dict(selfcomm=True, send=True, recv=True), dict(selfcomm=False, send=True, recv=True), dict(selfcomm=False, send=True, recv=False),
           dict(selfcomm=False, send=False, recv=True), dict(selfcomm=False, send=False, recv=False)]
PERMS = list(itertools.permutations(range(3)))
def configs(tier):
    """(which, alg, packer, index, scalar, order in, order out, case)"""
    out = []
    tp = [((0, 1, 2), (1, 2, 0)), ((2, 0, 1), (1, 0, 2)), ((1, 0, 2), (0, 1, 2)), ((0, 2, 1), (2, 1, 0))]
    dp = [((0, 1, 2), (0, 1, 2)), ((2, 0, 1), (2, 0, 1)), ((1, 2, 0), (1, 2, 0))]
    if tier == "thorough":
        tp = [(a, b) for a in PERMS for b in PERMS if a != b]; dp = [(a, a) for a in PERMS]
    for which in ("alltoall", "alltoallv", "pointtopoint"):
        for alg in ALGS[which]:
            al = alg if which == "pointtopoint" else None
            for ii, index in enumerate(("int", "long long")):
                for pi, (packer, prs) in enumerate((("direct_packer", dp), ("transpose_packer", tp))):
                    for k, (a, b) in enumerate(prs):
                        cases = [dict()] if which == "alltoall" else CASES_V
                        for ci, c in enumerate(cases):
                            if tier == "thorough": ss = list(SCALARS) if k < 2 or ci == 0 else [list(SCALARS)[k % 4]]
                            elif index == "int": ss = list(SCALARS) if (k == 0 and ci == 0) else [list(SCALARS)[(k + ci) % 4]] if k == 0 or ci == 0 else []
                            else: ss = [list(SCALARS)[(ci + pi) % 4]] if k == 1 and ci < 2 else []
                            for s in ss: out.append((which, al, packer, index, s, a, b, c))
    return out
def cname(c):
    if c[7].get("group"): return "%s<%s,%s> no exchange" % (c[0], c[2].split("_")[0], c[3])
    return "%s%s<%s,%s,%s> order %s->%s%s" % (c[0], ":" + c[1] if c[1] else "", c[2].split("_")[0], c[3], c[4], "".join(map(str, c[5])), "".join(map(str, c[6])),
        "" if not c[7] else " self=%d send=%d recv=%d" % (c[7]["selfcomm"], c[7]["send"], c[7]["recv"]))
_traces = {}
def get_trace(p, c):
    k = (c[:7], tuple(sorted(c[7].items())))
    if k not in _traces: _traces[k] = trace(p, c[0], c[2], c[3], c[4], c[5], c[6], c[1], **c[7])
    return _traces[k]

def dropnull(p):
    """psum(f, N) * [N >= 1] -> psum(f, N)"""
    if not isinstance(p, Poly): return p
    r = ZERO
    for k, c in p.m.items():
        ts = [(Term._byid[a], e) for a, e in k]
        Ns = [t.args[2] for t, e in ts if t.op == "psum"]
        kk = []
        for t, e in ts:
            if t.op == "ind" and any(isinstance(t.args[0], Term) and t.args[0].op == "ge" and t.args[0].args[0] is N - 1 for N in Ns): continue
            kk.append((t.id, e))
        r = r + Poly({tuple(sorted(kk)): c})
    return r

# ------------------------------------------------------------------ views of a trace
class PK:
    """one pack/unpack effect: peer rank, batch index, guard, offsets"""
    pass
def find_pair(fields):
    """(a, b) of the intersection INB[a] with OUTB[b] the packing plan describes"""
    out = set()
    def go(x):
        if isinstance(x, Poly):
            for a in x.atoms(): go(Term._byid[a])
        elif isinstance(x, Vec):
            if isinstance(x, VElems):
                for y in x.el: go(y)
        elif isinstance(x, Term):
            if x.op in ("ovsize", "ovlow", "ovcount"): out.add((x.args[-2], x.args[-1]))
            elif x.op == "ovempty": out.add((x.args[0], x.args[1]))
    if fields: go(fields["size"])
    if len(out) != 1: return None
    ka, kb = out.pop()
    ra, rb = rank_of(ka), rank_of(kb)
    if not ra or not rb: return None
    if "INB" in show(ra[0]): return ra[1], rb[1]
    return rb[1], ra[1]
def pk_of(t, fl, pos):
    d = fl.e.d
    x = PK(); x.fl = fl; x.pos = pos; x.loc = fl.e.loc
    x.op = d["op"]; x.cls = d["cls"]; x.fields = d["fields"]; x.es = d["es"]
    x.user, x.msg = (d["src"], d["dst"]) if x.op == "pack" else (d["dst"], d["src"])
    pr = find_pair(x.fields)
    x.v = None; x.err = None
    if pr is None: x.err = "the packing plan does not describe one intersection: %s" % (x.fields and {k: x.fields[k] for k in ("size",)},); return x
    a, b = pr
    own, x.v = (a, b) if x.op == "pack" else (b, a)
    if own is not t.me: x.err = "the plan describes the part of rank %s" % show(own); return x
    # batch loop
    bl = [(n, N) for n, N in fl.loops if N is P(t.batch)]
    x.peers = [(n, N) for n, N in fl.loops if N is not P(t.batch)]
    if len(bl) != 1: x.err = "is executed for %d batch loops" % len(bl); return x
    x.j = P(bl[0][0])
    x.lits = [c for c in conj(fl.g)]
    return x
def conj(g):
    pos, neg = bd_literals(g)
    return [batom(a) for a in pos] + [bnot(batom(a)) for a in neg]
def pks(t):
    if not hasattr(t, "_pks"):
        t._pks = [pk_of(t, f, i) for i, f in enumerate(t.flat) if f.e.kind == "pk"]
    return t._pks
def calls(t, *names):
    return [(i, f) for i, f in enumerate(t.flat) if f.e.kind == "call" and f.e.d["q"] in names]
def own_box(t, x):
    return P(T("idx", T("sym", "INB" if x.op == "pack" else "OUTB"), t.me))
def sides(t):
    """the two peer sequences of this rank: sent-to and received-from"""
    i, o = T("sym", "INB"), T("sym", "OUTB")
    w = "self" if t.case["selfcomm"] else "noself"
    return T("side", T("idx", i, t.me), o, w), T("side", T("idx", o, t.me), i, w)
def group_member(v):
    """n when v is group[n]"""
    at = v.atom_term()
    if at is not None and at.op == "idx" and at.args[0] is T("sym", "group"): return at.args[1]
    return None
def waitany_out(v):
    at = v.atom_term()
    return at is not None and show(at).startswith("out:MPI_Waitany#")
def cover(t, which, ps):
    """the peers of the entries ps (all of one direction): returns (ok, text)"""
    S = sides(t)[0 if ps and ps[0].op == "pack" else 1]
    G = P(T("size", T("sym", "group"))) + 1
    case = t.case
    if which != "pointtopoint":
        if case.get("group") == "empty": return not ps, "no peers"
        if len(ps) != 1: return False, "%d pack/unpack sites" % len(ps)
        x = ps[0]
        if len(x.peers) != 1 or x.peers[0][1] is not G: return False, "the peers are enumerated by %s" % [(show(n), show(N)) for n, N in x.peers]
        n = x.peers[0][0]
        k = group_member(x.v)
        if k is not P(n) and k is not (G - 1 - P(n)): return False, "the peer is %s in iteration %s" % (show(x.v), show(n))
        want = isin(S, x.v)
        if not implies(x.fl.g, want) or not implies(want, x.fl.g): return False, "runs when %s instead of when the overlap is not empty" % show(x.fl.g)
        return True, ""
    self_ = [x for x in ps if x.v is t.me]
    rest = [x for x in ps if x.v is not t.me]
    if case["selfcomm"]:
        if len(self_) != 1 or self_[0].peers or self_[0].fl.g is not TRUE: return False, "the part kept on the rank is not copied exactly once"
        N = npeers(S) - 1
    else:
        if self_: return False, "the rank exchanges with itself without an overlap"
        d = case["send"] if (not ps or ps[0].op == "pack") else case["recv"]
        N = npeers(S) if d else ZERO
    if N is ZERO: return not rest, "pack/unpack without peers"
    if len(rest) != 1: return False, "%d pack/unpack sites for peers" % len(rest)
    x = rest[0]
    if x.fl.g is not TRUE: return False, "conditional on %s" % show(x.fl.g)
    if len(x.peers) != 1 or not same_count(x.peers[0][1], N): return False, "the peers are enumerated by %s instead of %s" % ([(show(n), show(M)) for n, M in x.peers], show(N))
    n = P(x.peers[0][0])
    at = x.v.atom_term()
    if at is None or at.op != "peer" or at.args[0] is not S: return False, "the peer is %s" % show(x.v)
    i = at.args[1]
    if i is n or i is N - 1 - n: return True, ""
    if waitany_out(i):
        x.waitany = i.atom_term()
        return True, ""
    return False, "the peer is %s in iteration %s" % (show(x.v), show(n))
def same_count(a, b):
    return same(a, b) or same(dropnull(a), dropnull(b)) or eq0(a - b) is TRUE
def slot_base(t, x):
    """offset of the message buffer of entry x, batch index 0, and stride between batch entries"""
    off = x.msg.off
    off = dropnull(under(x.fl.g, off))
    j = x.j.atom_term()
    base = subst(off, {j: ZERO})
    st = subst(off, {j: ONE}) - base
    if j in deps(st) or off is not base + x.j * st: return None
    return base, st
def peer_count(t, x):
    """number of elements exchanged with the peer of x"""
    sz = x.fields["size"].el
    return under(x.fl.g, sz[0] * sz[1] * sz[2])

# ------------------------------------------------------------------ rank enumerations
def seq_entries(v):
    """entries of a sequence of conditional pushes: [(loops, guard, value)] in order, or None"""
    out = []
    def go(segs, loops, g):
        for s in segs:
            if isinstance(s, tuple) and s[0] == "L":
                _, n, N, gg, inner = s
                if N is ONE:
                    if not go([seg_subst(y, {n: ZERO}) for y in inner], loops, band(g, subst(gg, {n: ZERO}))): return False
                elif not go(inner, loops + [(n, N)], band(g, gg)): return False
            elif isinstance(s, tuple) and s[0] == "e": out.append((loops, g, s[1]))
            else: return False
        return True
    if isinstance(v, VElems): return [([], TRUE, x) for x in v.el]
    ss = vsegs(v) if isinstance(v, Vec) else None
    if ss is None: return None
    return out if go(ss, [], TRUE) else None
def rotation(q, n, np):
    """c when q == (n + c) mod np for n < np"""
    for a in q.atoms():
        x = Term._byid[a]
        if x.op == "ind" and n in deps(x):       # v - np*[v >= np] (or v, v - np by cases) with v = n + c
            lo, hi = subst_atom(q, x, ZERO), subst_atom(q, x, ONE)
            for v in (lo, hi):
                c = v - P(n)
                if n not in deps(c) and q is ite(ge0(v - np), v - np, v): return c
        if x.op == "fdiv" and x.args[1] is np and n in deps(x.args[0]):
            c = x.args[0] - P(n)
            if n in deps(c): continue
            if q is pmod(P(n) + c, np): return c
    return None
def covers_ranks(parts, np, me):
    """the enumeration visits every rank 0..np-1 exactly once and the rank itself last.
    parts: [(index, count, rank value)] in order"""
    if len(parts) == 1:
        n, N, q = parts[0]
        if N is not np: return False
        c = rotation(q, n, np)
        if c is not None: return eq0(pmod(c - me - 1, np)) is TRUE or c is me + 1
        return False
    if len(parts) == 2:
        (a, A, qa), (b, B, qb) = parts
        return qa is P(a) + me + 1 and (A is np - me - 1 or A is max0(np - me - 1)) and qb is P(b) and B is me + 1
    return False

# ------------------------------------------------------------------ selection of the redistribution
def dispatch(p, f, a, b):
    """make_reshape3d with boxes of axis orders a -> b; the three factories are recorded as effects 'mk'"""
    t = Trace()
    def h_match(m, fn, this, ar, n):
        t.match_args.append([m.read(x) if isinstance(x, LV) else x for x in ar])
        return batom(T("match"))
    def h_mk(m, fn, this, ar, n):
        m.effect("mk", q=normq(fn["q"]), ta=fn.get("ta"), args=[m.read(x) if isinstance(x, LV) else x for x in ar])
        return Ptr(T("heap", "made", fn["q"]), (), None)
    t.match_args = []
    ex = {"heffte::match": h_match}
    for w in ("alltoall", "alltoallv", "pointtopoint"): ex["heffte::make_reshape3d_" + w] = h_mk
    t.L = L = Layouts(p, f["ta"][1], a, b, extra=ex); t.m = m = L.m
    t.ret = L.make(f); t.effs = flatten(m.rec); m.rec = []
    t.me = P(L.me); t.boxes = L.bx; t.f = f
    oi = [i for i, x in enumerate(f["params"]) if "plan_options" in m.ty(x["t"]).get("s", "") or "plan_options" in m.strip_ref(x["t"]).get("s", "")] if hasattr(m, "strip_ref") else [i for i, x in enumerate(f["params"]) if "plan_options" in m.ty(x["t"]).get("s", "")]
    t.opt = f["params"][oi[0]]["n"] if oi else "options"
    return t
def alts(v): return v.alts if isinstance(v, GV) else [(TRUE, v)]
