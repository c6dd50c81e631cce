"""Abstract execution of the plan logic: every outcome of the layout predicates (are these pencils? slabs?) is explored, layouts are
symbolic vectors of boxes over an arbitrary number of ranks, and the layout generators are represented by their post-conditions."""
from harness import *
from interp import Machine
import itertools, re

class Base:
    """one layout: a disjoint cover of the index ranges cov (per axis (lo, hi)) by one box per rank"""
    def __init__(self, name, cov, order): self.t = T("sym", name); self.cov = cov; self.order = order; self.name = name
def terms(x, ops=("lo", "ext"), out=None):
    """all sub-terms built by the given operators"""
    if out is None: out = set()
    if isinstance(x, Term):
        if x.op in ops: out.add(x)
        for a in x.args: terms(a, ops, out)
    elif isinstance(x, Poly):
        for a in x.atoms(): terms(Term._byid[a], ops, out)
    elif isinstance(x, BD):
        for t in bd_support(x): terms(t, ops, out)
    elif isinstance(x, (tuple, list)):
        for a in x: terms(a, ops, out)
    elif isinstance(x, Obj):
        for a in x.f.values(): terms(a, ops, out)
    elif isinstance(x, VElems):
        for a in x.el: terms(a, ops, out)
    elif isinstance(x, VFn): terms(x.body, ops, out)
    elif isinstance(x, GV):
        for g, a in x.alts: terms(g, ops, out); terms(a, ops, out)
    return out
def tsub(x, m):
    """substitute compound terms"""
    if not m: return x
    mm = dict(m)
    for t in m:
        for l in deps(t): mm.setdefault(l, l)
    return subst(x, mm)
class Path(Machine):
    """machine that resolves layout predicates from a decision script"""
    def setup(self, script, cfg):
        self.script = script; self.pos = 0; self.trail = []; self.keys = {}; self.free = {}; self.cfg = cfg; self.bases = {}; self.used = 0
    def choose(self, allowed):
        if len(allowed) == 1: return allowed[0]
        if self.pos < len(self.script): w = self.script[self.pos]
        else: w = allowed[0]; self.script.append(w)
        self.trail.append((self.pos, allowed)); self.pos += 1
        return w
    def complete(self, b, d):
        """does every box of layout b contain the whole range of axis d?"""
        k = (b, d)
        if k in self.keys: return self.keys[k]
        if self.cfg.single: w = True
        elif b.cov[d][0] == b.cov[d][1]: w = True
        else:
            rest = [e for e in range(3) if e != d]
            w = False if all(self.keys.get((b, e)) or b.cov[e][0] == b.cov[e][1] for e in rest) else self.choose([True, False])
        self.keys[k] = w
        return w
    def base_of(self, t): return self.bases.get(t)
    def norm(self, q):
        """use what is known: complete axes have the full range"""
        m = {}
        for t in terms(q):
            if 1:
                b, d = self.bases[t.args[0]], int(t.args[1].const)
                if self.keys.get((b, d)) or b.cov[d][0] == b.cov[d][1] or self.cfg.single:
                    m[t] = b.cov[d][0] if t.op == "lo" else b.cov[d][1] - b.cov[d][0]
        return tsub(q, m)
    def atom(self, a):
        """truth of an 'exists a box with ...' atom"""
        if a.op == "ex":
            body = a.args[1]; known = True; any_true = False
            neg = []
            for x in bd_support(body):
                if x.op != "eq": known = False; break
                q = self.norm(x.args[0])
                if q == ZERO: body = self.restrict(body, x, True); continue
                if isinstance(q, Poly) and q.is_const: body = self.restrict(body, x, False); continue
                ts = list(terms(q))
                if len(ts) == 1 and ts[0].op == "ext":
                    b, d = self.bases[ts[0].args[0]], int(ts[0].args[1].const)
                    full = b.cov[d][1] - b.cov[d][0] - P(ts[0])
                    if q == full or q == -full: neg.append((x, b, d)); continue
                known = False; break
            if known:
                for x, b, d in neg:
                    if self.complete(b, d): body = self.restrict(body, x, True)
                    else:
                        if self.restrict(body, x, False) is TRUE: return True   # the box that is not complete satisfies it
                if body is TRUE or body is FALSE: return body is TRUE
        if a.op in ("ge", "eq"):
            q = self.norm(a.args[0])
            if q is not a.args[0]:
                c = ge0(q) if a.op == "ge" else eq0(q)
                if c is TRUE or c is FALSE: return c is TRUE
        if a.op != "ex" and not any(t.op == "sym" and t.args and t.args[0] == "connections" for t in deps(a)): return None
        if any(t.op == "n" for t in deps(a)): return None
        if a not in self.free: self.free[a] = self.choose([True, False])
        return self.free[a]
    PURE = {"heffte::is_pencils", "heffte::is_slab", "heffte::reorder", "heffte::apply_r2c", "heffte::order_is_identical"}
    cache = {}
    def inline(self, fn, this, a, *r_, **k_):
        """layout queries and copies are evaluated once per argument"""
        if normq(fn["q"]) not in self.PURE or self.cfg.single: return Machine.inline(self, fn, this, a, *r_, **k_)
        names = {}
        k = (fn["id"], re.sub(r"\b[vs]\d+\b", lambda x: names.setdefault(x.group(0), "#%d" % len(names)), repr(self.snap(a, fn))))
        r = self.cache.get(k)
        if r is None:
            g, used = self.st.g, self.used
            r = Machine.inline(self, fn, this, a)
            if self.st.g is g and self.used == used: self.cache[k] = r
        return r
    def decide(self, c):
        r = Machine.decide(self, c)
        while r.v is not None:
            hit = None
            for a in sorted(bd_support(r), key=lambda t: t.id):
                w = self.atom(a)
                if w is not None: hit = (a, w); self.used += 1; break
            if hit is None: return r
            r = self.restrict(r, hit[0], hit[1])
        return r
def elem(m, b, et, v):
    rec = m.strip(et)["rec"]
    it = m.fields(rec)["low"]["t"]; ot = m.fields(rec)["order"]["t"]
    lo = [P(T("lo", b.t, P(d), P(v))) for d in range(3)]; ex = [P(T("ext", b.t, P(d), P(v))) for d in range(3)]
    arr = lambda t, xs: VElems(m.eltype(m.strip(t)), m.size(m.eltype(m.strip(t))), xs)
    order = b.order if isinstance(b.order, VElems) else arr(ot, [P(x) for x in b.order])
    return Obj(rec, {"low": arr(it, lo), "high": arr(it, [a + e for a, e in zip(lo, ex)]), "size": arr(it, [e + 1 for e in ex]), "order": order})
def mk(t): mark_nonneg(t); return t
def layout(m, b, vt, n):
    """the vector of boxes of layout b"""
    m.bases[b.t] = b
    et = m.eltype(m.strip(vt)); v = fresh_index("v")
    return VFn(et, m.size(et), n, v, elem(m, b, et, v))
def ranges(m, o):
    return [(m.norm(o.f["low"].el[d]), m.norm(o.f["high"].el[d])) for d in range(3)]
class Cfg:
    def __init__(self, pencils, reorder, r2c, sub, world, single, oin=(0, 1, 2), oout=(0, 1, 2)):
        self.pencils = pencils; self.reorder = reorder; self.r2c = r2c; self.sub = sub; self.world = world; self.single = single; self.oin = oin; self.oout = oout
    def __repr__(self):
        return "%s%s%s%s%s%s, orders %s/%s" % ("pencils" if self.pencils else "slabs", ", reorder" if self.reorder else "", "" if self.r2c < 0 else ", r2c axis %d" % self.r2c,
            ", sub-ranks" if self.sub else "", "" if self.world is None else ", axis %d of length 1" % self.world, ", one rank" if self.single else "", "".join(map(str, self.oin)), "".join(map(str, self.oout)))
NIN = T("sym", "nranks"); mark_nonneg(NIN)
def boxval(m, t, rng, order=(0, 1, 2)):
    rec = m.strip(t)["rec"]; ft = {n_: x["t"] for n_, x in m.fields(rec).items()}
    arr = lambda t, xs: VElems(m.eltype(m.strip(t)), m.size(m.eltype(m.strip(t))), [P(x) for x in xs])
    return Obj(rec, {"low": arr(ft["low"], [r[0] for r in rng]), "high": arr(ft["high"], [r[1] for r in rng]), "size": arr(ft["size"], [r[1] - r[0] + 1 for r in rng]), "order": arr(ft["order"], order)})
def run_path(p, f, cfg, script):
    """one execution of plan_operations; returns (machine, plan object)"""
    n = [P(2) + P(mk(T("sym", "w%d" % d))) for d in range(3)]
    if cfg.world is not None: n[cfg.world] = ONE
    N = ONE if cfg.single else P(NIN) + 2
    win = [(ZERO, n[d] - 1) for d in range(3)]
    wout = [(ZERO, fdiv(n[d], 2)) if d == cfg.r2c else win[d] for d in range(3)]
    bt = {}
    def h_world(m, fn, this, a, node):
        v = m.snap(a, fn)[0]
        r = ranges_of(m, v)
        b = [x for x in (m.IN, m.OUT) if x.name == r]
        if not b: raise AnchorMissing("find_world is applied to the user's layouts (got %s)" % r)
        return boxval(m, fn["ret"], b[0].cov)
    def ranges_of(m, v):
        s = {m.bases[t.args[0]].name for t in terms(v)}
        return s.pop() if len(s) == 1 else None
    def h_split(m, fn, this, a, node):
        v = m.snap(a, fn); w = v[0]
        cov = [(m.norm(w.f["low"].el[d]), m.norm(w.f["high"].el[d])) for d in range(3)]
        g = v[1].el
        b = Base("made%d" % len(m.bases), cov, w.f["order"])
        m.bases[b.t] = b
        for d in range(3):
            if P(g[d]) == ONE: m.keys[(b, d)] = True
        # the grid has as many parts as ranks in use; with more than one rank not every axis can be left whole
        m.effect("split", world=cov, grid=g, remap=v[2], base=b)
        return layout(m, b, fn["ret"], P(N))
    def h_overlap(m, fn, this, a, node):
        v = m.snap(a, fn); new, order = v[0], v[2]
        s = {t.args[0] for t in terms(new)}
        if len(s) != 1: raise AnchorMissing("maximize_overlap of a generated layout")
        b0 = m.bases[s.pop()]
        b = Base("perm%d" % len(m.bases), b0.cov, order); m.bases[b.t] = b
        for d in range(3):
            if m.keys.get((b0, d)): m.keys[(b, d)] = True
        m.effect("overlap", new=b0, base=b, remap=v[3], order=order)
        return layout(m, b, fn["ret"], P(N))
    def h_grid(m, fn, this, a, node):
        k = P(m.snap(a, fn)[0])
        et = m.eltype(m.strip(fn["ret"]))
        return VElems(et, m.size(et), [P(mk(T("pg", k, P(i)))) + 1 for i in (0, 1)])
    def h_grid2(m, fn, this, a, node):
        v = m.snap(a, fn)
        d = int(P(v[1]).const); et = m.eltype(m.strip(fn["ret"]))
        g = [P(mk(T("pg2", *[P(x) for x in v[2].el], P(d), P(i)))) + 1 for i in range(3)]
        g[d] = ONE
        m.effect("grid2", world=v[0], dim=d, cand=v[2].el)
        return VElems(et, m.size(et), g)
    hooks = {"heffte::find_world": h_world, "heffte::split_world": h_split, "heffte::maximize_overlap": h_overlap, "heffte::make_procgrid": h_grid, "heffte::make_procgrid2d": h_grid2,
             "heffte::world_complete": lambda m, fn, this, a, node: (m.effect("complete", args=m.snap(a, fn)), TRUE)[1],
             "heffte::count_connections": lambda m, fn, this, a, node: P(fresh("connections"))}
    hooks.update(getattr(cfg, "hooks", {}))
    m = Path(p, hooks)
    m.frames.append(Frame({"file": "entry", "q": "entry", "ret": 0, "k": "func"}, None))
    m.setup(script, cfg)
    m.IN = Base("in", win, cfg.oin); m.OUT = Base("out", wout, cfg.oout)
    bt_ = m.strip(m.ty(f["params"][0]["t"])["el"])
    flds = {n_: x["t"] for n_, x in m.fields(bt_["rec"]).items()}
    boxes = Obj(bt_["rec"], {"in": layout(m, m.IN, flds["in"], P(N)), "out": layout(m, m.OUT, flds["out"], P(N))})
    ot = m.strip(f["params"][2]["t"])
    opts = Obj(ot["rec"], {"use_pencils": TRUE if cfg.pencils else FALSE, "use_reorder": TRUE if cfg.reorder else FALSE}, T("sym", "opts"))
    S = P(mk(T("sym", "nsub"))) + 1
    # the number of ranks to use is read through the options' accessor
    def h_sub(mm, fn, this, a, node): return S if cfg.sub else getattr(cfg, "subs", lambda n: P(-1))(P(N))
    m.hooks["heffte::plan_options::get_subranks"] = h_sub
    if cfg.sub: m.facts += [P(N) - S - 1]
    m.N = P(N); m.S = S if cfg.sub else P(N); m.WIN = win; m.WOUT = wout; m.opts = opts; m.boxes = boxes
    me = T("sym", "me"); mark_nonneg(me)
    r = call(m, f, {0: boxes, 1: P(cfg.r2c), 2: opts, 3: P(me)})
    return m, r
def explore(p, f, cfg, limit=4000):
    """all decision paths"""
    script = []; k = 0
    while True:
        m, r = run_path(p, f, cfg, script)
        yield m, r, list(script)
        k += 1
        if k > limit: raise AnchorMissing("more than %d plan paths" % limit)
        script = script[:m.pos]
        while script:
            allowed = [x for x in m.trail if x[0] == len(script) - 1][0][1]
            if script[-1] == allowed[0]: script[-1] = allowed[1]; break
            script.pop()
        if not script: return
