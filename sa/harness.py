"""Shared machinery of the checks: programs, entry points, obligations, evidence, known findings."""
import json, os, sys, time, traceback, itertools, re, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, prog
from dom import *
import dom
from values import *
from interp import *

VERIF = extract.VERIF
REPO = extract.REPO

class AnchorMissing(Exception): pass

_progs = {}
def program(index="int", defs=extract.BASE_DEFS):
    k = (index, defs)
    if k not in _progs: _progs[k] = prog.Prog(extract.main_unit(index, defs))
    return _progs[k]
def unit(source, name, defs=extract.BASE_DEFS, extra=()):
    k = (source, name, defs, tuple(extra))
    if k not in _progs: _progs[k] = prog.Prog(extract.extract(source, name, defs, extra))
    return _progs[k]

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.obl = []; self.viol = []; self.known = []; self.t0 = time.time()
        self.funcs = set(); self.calls = 0; self.loops = 0; self.notes = []; self.assumptions = []; self.rules = []
        self.known_findings = load_known().get(pid, [])
        self.samples = []
    def ok(self, name): self.obl.append((name, True))
    def check(self, cond, name, detail="", loc=None, key=None):
        """one proof obligation"""
        self.obl.append((name, bool(cond)))
        if not cond: self.violation(name, detail, loc, key)
        return bool(cond)
    def violation(self, name, detail, loc=None, key=None):
        k = key or name
        for f in self.known_findings:
            if f["key"] == k or (f.get("regex") and re.fullmatch(f["regex"], k)):
                if k not in [x[0] for x in self.known]: self.known.append((k, f["what"]))
                return
        if len(detail) > 4000: detail = detail[:4000] + " ..."
        self.viol.append({"obligation": name, "detail": detail, "file": (loc or ("", 0))[0], "line": (loc or ("", 0))[1]})
    def parallel(self, items, fn, nproc=None):
        """apply fn(ctx, item) to all items in forked workers"""
        import pickle, multiprocessing
        items = list(items)
        n = min(nproc or min(8, os.cpu_count() or 1), len(items))
        if n <= 1 or os.environ.get("HX_SERIAL"):
            for x in items: fn(self, x)
            return
        sys.stdout.flush(); sys.stderr.flush()
        pipes = []
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                c = Ctx(self.pid, self.tier); err = None
                try:
                    for x in items[i::n]: fn(c, x)
                except (AnchorMissing, extract.ExtractError) as e: err = ("anchor", str(e))
                except BaseException: err = ("crash", traceback.format_exc())
                data = pickle.dumps((c.obl, c.viol, c.known, c.funcs, c.calls, c.loops, c.notes, err))
                with os.fdopen(w, "wb") as f: f.write(data)
                os._exit(0)
            os.close(w); pipes.append((pid, r))
        errs = []
        for pid, r in pipes:
            with os.fdopen(r, "rb") as f: data = f.read()
            os.waitpid(pid, 0)
            if not data: errs.append(("crash", "worker died")); continue
            o, v, k, fu, ca, lo, no, err = pickle.loads(data)
            self.obl += o; self.viol += v; self.funcs |= fu; self.calls += ca; self.loops += lo
            for x in k:
                if x[0] not in [y[0] for y in self.known]: self.known.append(x)
            for x in no:
                if x not in self.notes: self.notes.append(x)
            if err: errs.append(err)
        for kind, text in errs:
            if kind == "anchor": raise AnchorMissing(text)
            raise RuntimeError(text)
    def absorb(self, m):
        self.funcs |= m.stats["functions"]; self.calls += m.stats["calls"]; self.loops += m.stats["loops"]
        for w, l in m.warn:
            s = "%s at %s:%s" % (w, l[0], l[1])
            if s not in self.notes: self.notes.append(s)

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return {}
    d = json.load(open(p)); out = {}
    for f in d.get("findings", []):
        out.setdefault(f["property"], []).append(f)
    return out

def run_check(pid, title, fn, tier, level, technique):
    ctx = Ctx(pid, tier)
    rc = 0
    try:
        fn(ctx)
        if not ctx.obl: raise AnchorMissing("no obligation was generated")
    except (AnchorMissing, extract.ExtractError) as e:
        print("CHECK-ERROR %s: %s" % (pid, e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    discharged = sum(1 for _, o in ctx.obl if o)
    wall = time.time() - ctx.t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {"obligations": len(ctx.obl), "discharged": discharged,
                       "checker_cmd": "python3 check.py %s --tier %s" % (pid, tier),
                       "trusted_base": ["clang 18 front end", "sa/ value-flow analysis and its library models", "MPI / vendor library semantics as documented"],
                       "explanation": "%s: %d proof obligations over %d analysed functions (%d inlined calls, %d loops summarised); %d not discharged" % (technique, len(ctx.obl), len(ctx.funcs), ctx.calls, ctx.loops, len(ctx.obl) - discharged),
                       "functions": sorted(ctx.funcs)[:400], "rules": ctx.rules, "obligation_names": [n for n, _ in ctx.obl][:400],
                       "analysis_notes": ctx.notes[:60]},
          "assumptions": ctx.assumptions, "wall_s": round(wall, 2), "violations": len(ctx.viol),
          "violation_list": ctx.viol[:50], "known_findings": [k for k, _ in ctx.known]}
    ep = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(ev, open(ep, "w"), indent=1)
    for k, w in ctx.known: print("KNOWN-FINDING: property=%s %s (%s)" % (pid, w, k))
    if ctx.viol:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in ctx.viol: f.write("%s:%s: [%s] %s\n    %s\n" % (v["file"], v["line"], pid, v["obligation"], v["detail"]))
        for v in ctx.viol[:20]: print("%s:%s: %s\n    %s" % (v["file"], v["line"], v["obligation"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    print("%s: %d/%d obligations, %d functions, %d known, %.1fs" % (pid, discharged, len(ctx.obl), len(ctx.funcs), len(ctx.known), wall))
    return rc

# ------------------------------------------------------------------ entry points
def fns(p, q, **kw):
    """functions with a body by normalised qualified name"""
    idx = getattr(p, "_byn", None)
    if idx is None:
        idx = p._byn = {}
        for f in p.fns.values():
            if f.get("body") is not None or f["k"] == "ctor": idx.setdefault(normq(f["q"]), []).append(f)
    return [f for f in idx.get(q, []) if f.get("body") is not None]
def rec_of(p, f): return p.recs[f["cls"]]

def machine(p, hooks=None, facts=(), **kw):
    m = Machine(p, hooks, facts, **kw)
    m.frames.append(Frame({"file": "entry", "q": "entry", "ret": 0, "k": "func"}, None))
    return m
def symarg(m, t, name):
    y = m.ty(t)
    if y["k"] == "ref":
        b = T("sym", name)
        if b not in m.st.s: m.st.s[b] = m.sym(y["el"], b)
        return LV(b)
    return m.sym(t, T("sym", name))
def this_obj(m, cls, name="this"):
    b = T("sym", name)
    m.st.s[b] = Obj(cls, {}, b)
    return LV(b)
def call(m, f, args=None, this=None, names=None):
    """analyse f with symbolic parameters; args overrides by parameter name or position"""
    a = []
    args = args or {}
    for i, x in enumerate(f["params"]):
        v = args.get(x["n"], args.get(i))
        if v is None: v = symarg(m, x["t"], x["n"] or ("arg%d" % i))
        elif m.ty(x["t"])["k"] == "ref" and not isinstance(v, (LV, MLV)): v = m.temp(v)
        a.append(v)
    if f.get("cls") and f["k"] not in ("func",) and not f.get("static") and this is None:
        this = this_obj(m, f["cls"])
    return m.inline(f, this, a)

# ------------------------------------------------------------------ loop nests
class Flat:
    def __init__(self, loops, g, e): self.loops = loops; self.g = g; self.e = e
    def __repr__(self): return "{%s} [%s] %s %s" % (", ".join("%s<%s" % (show(n), show(N)) for n, N in self.loops), show(self.g), self.e.kind, self.e.d)
def flatten(effs, loops=(), g=TRUE):
    out = []
    for e in effs:
        if e.kind == "loop": out += flatten(e.body, loops + ((e.n, e.N),), band(g, e.g))
        else: out.append(Flat(list(loops), band(g, e.g), e))
    return out
def fsub(fl, m):
    e = fl.e.subst(m)
    return Flat([(n, subst(N, m)) for n, N in fl.loops], subst(fl.g, m), e)
def eff_deps(e):
    s = deps(e.g)
    def go(x):
        nonlocal s
        if isinstance(x, dict):
            for v in x.values(): go(v)
        elif isinstance(x, (list, tuple)):
            for v in x: go(v)
        elif isinstance(x, str) or x is None or isinstance(x, (int, float)): pass
        else: s = s | deps(x)
    go(e.d)
    return s
def ceil_parts(N):
    """N == ceil(s/S) -> (s, S)"""
    t = N.atom_term()
    q = None
    if t is not None and t.op == "max0": q = t.args[0]
    else: q = N
    if q is None: return None
    # fdiv(s-1,S)+1
    r = q - 1
    tt = r.atom_term()
    if tt is not None and tt.op == "fdiv": return tt.args[0] + 1, tt.args[1]
    tt = q.atom_term()
    if tt is not None and tt.op == "fdiv":
        a, b = tt.args
        return a - b + 1, b
    return None
def norm_nest(fl, nonneg_assumed=True):
    """tile fusion, splitting of flattened indices, unit loops"""
    changed = True
    while changed:
        changed = False
        for i, (n, N) in enumerate(fl.loops):
            if N is ONE:
                fl = fsub(Flat(fl.loops[:i] + fl.loops[i + 1:], fl.g, fl.e), {n: ZERO}); changed = True; break
            t = N.atom_term()
            if t is not None and t.op == "max0" and ceil_parts(N) is None:
                # bounds of data sizes are nonnegative
                x = t.args[0]
        if changed: continue
        # tiles
        for i, (a, A) in enumerate(fl.loops):
            cp = ceil_parts(A)
            if cp is None: continue
            s, S = cp
            for j, (b, B) in enumerate(fl.loops):
                if j == i: continue
                want = s - P(a) * S
                if B is pmin(S, want) or B is pmin(want, S) or B is max0(pmin(S, want)) or B is pmin(P(a) * S + S, s) - P(a) * S or B is pmin(s, P(a) * S + S) - P(a) * S or B is max0(pmin(P(a) * S + S, s) - P(a) * S):
                    t = fresh_index("t")
                    # effects must depend on a, b only through S*a+b :  b := t - S*a must eliminate a
                    rest = [l for k, l in enumerate(fl.loops) if k not in (i, j)]
                    e2 = fl.e.subst({b: P(t) - P(a) * S}); g2 = subst(fl.g, {b: P(t) - P(a) * S})
                    if a in eff_deps(e2) or a in deps(g2) or any(a in deps(N) or b in deps(N) for _, N in rest): continue
                    fl = Flat(rest[:min(i, j)] + [(t, s)] + rest[min(i, j):], g2, e2); changed = True; break
            if changed: break
        if changed: continue
        # flattened index  t < A*B  used through t/A and t%A
        for i, (t, N) in enumerate(fl.loops):
            divs = set()
            collect_divs(fl.e.d, t, divs)
            for d in divs:
                A = d.args[1]
                B = exact_div(N, A)
                if B is None or t in deps(B) or t in deps(A): continue
                x = fresh_index("x"); y = fresh_index("y")
                new = P(x) + A * P(y)
                m = {t: new}
                def fix(v, A=A, x=x, y=y, new=new):
                    return subst(v, m)
                fl2 = fsub_div(fl, i, t, x, y, A, B)
                if fl2 is not None: fl = fl2; changed = True; break
            if changed: break
    return fl
def collect_divs(d, t, out):
    def go(x):
        if isinstance(x, dict):
            for v in x.values(): go(v)
        elif isinstance(x, (list, tuple)):
            for v in x: go(v)
        elif isinstance(x, Poly):
            for a in x.atoms(): go(Term._byid[a])
        elif isinstance(x, BD):
            for a in bd_support(x): go(a)
        elif isinstance(x, Term):
            if x.op == "fdiv" and x.args[0] == P(t) and t not in deps(x.args[1]): out.add(x)
            for a in x.args: go(a)
        elif isinstance(x, Ptr):
            if x.off is not None: go(x.off)
    go(d)
def fsub_div(fl, i, t, x, y, A, B):
    dt = T("fdiv", P(t), A)
    new = P(x) + A * P(y)
    q = T("sym", "qq", next(dom._fresh))
    def rep(v):
        v = term_subst(v, dt, P(q)) if not isinstance(v, (dict, list)) else v
        return subst(v, {q: P(y), t: new})
    def go(v):
        if isinstance(v, dict): return {k: go(w) for k, w in v.items()}
        if isinstance(v, list): return [go(w) for w in v]
        if isinstance(v, str) or v is None or isinstance(v, (int, float)): return v
        return rep(v)
    e = Eff(fl.e.kind, rep(fl.e.g), go(fl.e.d), fl.e.loc)
    loops = fl.loops[:i] + [(y, B), (x, A)] + fl.loops[i + 1:]
    return Flat([(n, rep(N) if n not in (x, y) else N) for n, N in loops], rep(fl.g), e)
def match_nest(fl, spec_loops, test, reverse=True):
    """find a bijection of loop indices (optionally reversing directions) making test(effect) true"""
    ls = fl.loops
    if len(ls) != len(spec_loops): return None
    for perm in itertools.permutations(range(len(ls))):
        if any(ls[perm[j]][1] is not spec_loops[j][1] for j in range(len(ls))): continue
        for rv in itertools.product((0, 1), repeat=len(ls)) if reverse else [tuple([0] * len(ls))]:
            m = {}
            for j, (mi, M) in enumerate(spec_loops):
                m[ls[perm[j]][0]] = (M - 1 - P(mi)) if rv[j] else P(mi)
            if test(fl.e.subst(m), subst(fl.g, m)): return m
    return None

# ------------------------------------------------------------------ small algebra helpers
def fracparts(p):
    """a monomial c * a.. * inv(q).. as (numerator, denominator); None for sums"""
    if len(p.m) != 1: return (p, ONE) if not any(Term._byid[a].op == "inv" for a in p.atoms()) else None
    (mono, c), = p.m.items()
    n, d = P(c), ONE
    for a, e in mono:
        t = Term._byid[a]
        if t.op == "inv":
            for _ in range(e): d = d * P(t.args[0])
        else:
            for _ in range(e): n = n * P(t)
    return n, d
def frac_equal(a, b):
    x, y = fracparts(a), fracparts(b)
    return a is b or (x is not None and y is not None and x[0] * y[1] is y[0] * x[1])
def squared(x):
    """x*x with sqrt(a)^2 = a"""
    if len(x.m) != 1: return None
    (mono, c), = x.m.items()
    r = P(c) * P(c)
    for a, e in mono:
        t = Term._byid[a]
        if t.op == "sqrt": v = P(t.args[0])
        elif t.op == "inv" and P(t.args[0]).atom_term() is not None and P(t.args[0]).atom_term().op == "sqrt": v = dom.inv(P(P(t.args[0]).atom_term().args[0]))
        else: v = P(t) * P(t)
        for _ in range(e): r = r * v
    return r
def coefficient(p, n):
    """p == c*n + r with n in neither: (c, r)"""
    n = n if isinstance(n, Term) else n
    r = term_subst(p, n, ZERO); c = term_subst(p, n, ONE) - r
    if p is not r + c * P(n): return None
    return c, r
def contiguous(fl, es):
    """the nest touches es-byte elements base .. base+total contiguously, each once: (base, total bytes)"""
    off = fl.e.d["off"]; rest = []
    for n, N in fl.loops:
        x = coefficient(off, n)
        if x is None: return None
        c, off = x
        rest.append((c, N))
    cur = P(es)
    while rest:
        for i, (c, N) in enumerate(rest):
            if c is cur: cur = c * N; rest.pop(i); break
            if c is -cur: off = off - cur * (N - 1); cur = cur * N; rest.pop(i); break
        else: return None
    return off, cur
