"""P31: the factorization tree of the built-in FFT."""
from harness import *
from concrete import *
import re
TITLE = "The built-in FFT handles every length by a complete factorization"
TECHNIQUE = "abstract interpretation of the factorization and tree routines over all outcomes of the divisibility predicates, with closed summaries of the division loops; recursive calls by their contract"
S = "heffte::stock::"
SRC = "heffte_stock_tree.h"
PHI = [T("phi$", i) for i in range(4)]

class Tree(Enum):
    """loops that only transform scalars have a closed form: while(i; condition; next values; initial values)"""
    def loop(self, cond, body, inc, key=None):
        if not self.scalar(cond, body, inc): Enum.loop(self, cond, body, inc, key)
    def plain(self, c): return Machine.decide(self, c)
    def scalar(self, cond, body, inc):
        fr = self.frames[-1]; s0 = self.st; n0 = len(self.rec); pos = self.pos, list(self.script), dict(self.memo)
        def undo():
            self.st = s0; del self.rec[n0:]; self.pos = pos[0]; del self.script[len(pos[1]):]; self.memo.clear(); self.memo.update(pos[2])
        self.st = s0.copy()
        if self.plain(cond()) is FALSE: undo(); return False
        keys = []; init = []
        for rnd in range(5):
            self.st = s0.copy()
            for i, k in enumerate(keys): self.setp(self.st, k[0], k[1], P(PHI[i]))
            pre = State(self.st.g, dict(self.st.s))
            ctx = LoopCtx(); fr.loops.append(ctx); nret = len(fr.returns)
            try:
                c = self.plain(cond()); trail = self.pos
                body(); inc()
            finally: fr.loops.pop()
            if len(self.rec) != n0 or len(fr.returns) != nret or ctx.breaks or ctx.continues or self.pos != trail or self.st.dead or self.pos != pos[0]:
                del fr.returns[nret:]; undo(); return False
            new = []
            for b in s0.s:
                x = pre.s.get(b); y = self.st.s.get(b)
                if y is None or x is y: continue
                for pa in self.diff(x, y):
                    if (b, pa) not in keys: new.append((b, pa))
            if not new: break
            for k in new:
                v = self.getp(s0, *k)
                if not isinstance(v, Poly): undo(); return False
                keys.append(k); init.append(v)
            if len(keys) > len(PHI): undo(); return False
        else: undo(); return False
        nxt = [self.getp(self.st, *k) for k in keys]
        if not all(isinstance(v, Poly) for v in nxt) or not keys: undo(); return False
        # leading variable: the one the condition looks at
        order = sorted(range(len(keys)), key=lambda i: (PHI[i] not in deps(c), i))
        if c.v is None or init[order[0]].is_const: undo(); return False
        undo(); self.st = s0.copy()
        for i, k in enumerate(keys):
            self.setp(self.st, k[0], k[1], closed(T("while", i, c, *(nxt + init))))
        return True

def single(p, name, n=None):
    fs = [f for f in p.fns.values() if f["q"] == S + name and f.get("body") is not None]
    if not fs: raise AnchorMissing(S + name)
    return fs
def parts(t):
    """while term -> (index, condition, next values, initial values)"""
    i, c = t.args[:2]; r = t.args[2:]; k = len(r) // 2
    return i, c, r[:k], r[k:]
def closed(t):
    """named closed forms of a scalar loop"""
    i, c, nx, init = parts(t)
    st = strip_of(t)
    if st: return P(T("strip", st[0], st[1]))
    if len(nx) == 2:
        s = atom_eq(c)
        for k in (0, 1):
            x = P(PHI[k]); y = P(PHI[1 - k])
            if s and not s[1] and s[0].op == "eq" and (s[0].args[0] is x or -s[0].args[0] is x) or s and s[1] and s[0].op == "ge" and s[0].args[0] is x - 1:
                inc = nx[1 - k] - y
                if nx[k] is quo(x, P(2)) and (inc is P(T("bit&", x, P(1))) or inc is P(T("bit&", P(1), x)) or inc is x - P(2) * quo(x, P(2))):
                    return ZERO if i == k else init[1 - k] + P(T("popcount", init[k]))
    return P(t)
def atom_eq(c):
    """the single equality atom behind a condition and its polarity"""
    a = c.v
    if a is None: return None
    if c.hi is TRUE and c.lo is FALSE: return a, True
    if c.hi is FALSE and c.lo is TRUE: return a, False
    return None
quo = fdiv
def strip_of(v):
    """v = x with every factor d removed: (x, d)"""
    t = term_of(v)
    if t is None or t.op != "while": return None
    i, c, nx, init = parts(t)
    if len(nx) != 1: return None
    s = atom_eq(c)
    if not s or not s[1] or s[0].op != "eq": return None
    d = None
    for q in (2, 3, 4, 5, 7) :
        if nx[0] is quo(P(PHI[0]), P(q)): d = P(q)
    if d is None:
        o = term_of(nx[0])
        if o is None or len(o.args) != 2: return None
        d = P(o.args[1])
    e = s[0].args[0]; w = P(PHI[0]) - d * quo(P(PHI[0]), d)
    if e is w or -e is w: return init[0], d
    return None
def term_of(v):
    if isinstance(v, Poly) and len(v.m) == 1:
        (k, co), = v.m.items()
        if co == 1 and len(k) == 1 and k[0][1] == 1: return Term._byid[k[0][0]]
    return v if isinstance(v, Term) else None

def is_prime(n): return n > 1 and all(n % k for k in range(2, int(n ** .5) + 1))

def trial(ctx, p):
    """factor(): a proper divisor whenever one exists"""
    f = single(p, "factor")[0]; loc = (f["file"], f["line"]); N = T("sym", "f")
    state = {"k": 0}
    LIM = 1330
    def rule(a):
        # the search bound: stop asking once k is well behind the table
        if isinstance(a, Term) and a.op == "ge":
            c = a.args[0] - P(N)
            if c.is_const and -c.const > LIM * LIM: return False
        return None
    seen = set(); n = 0; bound = 0; last = None
    for m, r in enum(p, lambda m: call(m, f), rule=rule, facts=[P(N) - 1], limit=2000):
        n += 1
        tried = {}; lim = None
        for a, w in m.memo.items():
            d = divides(a, N)
            if d is not None: tried[d] = w
            elif a.op == "ge":
                c = a.args[0] - P(N)
                if c.is_const and not w: lim = -c.const
        yes = [d for d, w in tried.items() if w]
        if n == 1: ctx.absorb(m)
        if isinstance(r, Poly) and r.is_const:
            ctx.check(int(r.const) in yes and r.const > 1, "factor: a returned candidate divides the length", "%s is returned when only %s are known to divide" % (show(r), yes), loc)
        elif r is P(N):
            no = {d for d, w in tried.items() if not w}
            # everything below the square root was tried
            miss = [k for k in range(2, LIM) if (lim is None or k * k < lim) and is_prime(k) and k not in no]
            if lim is None: ctx.check(False, "factor: the length itself is returned only after trial division up to its square root", "returned without such a bound", loc); continue
            bound = max(bound, lim)
            ctx.check(not miss, "factor: trial division covers every prime up to the square root", "the length is declared prime without trying %s" % miss[:4], loc)
            top = max(no)
            ctx.check((top + 2) * (top + 2) >= lim, "factor: trial division goes up to the square root", "stops at %d for lengths up to %d" % (top, lim), loc)
        else: ctx.check(False, "factor: the result is a divisor or the length", show(r)[:200], loc)
    ctx.check(bound >= 1213 * 1213, "factor: the search continues behind the table", "bound %s" % bound, loc)
def divides(a, N):
    """the atom 'd divides N' for a constant d"""
    if a.op != "eq": return None
    e = a.args[0]
    for t in terms_in(e):
        if t.op == "fdiv" and len(t.args) == 2 and P(t.args[0]) is P(N):
            d = P(t.args[1])
            if d.is_const and (e is P(N) - d * P(t) or -e is P(N) - d * P(t)): return int(d.const)
    return None
def terms_in(x):
    return [Term._byid[i] for k in x.m for i, _ in k] if isinstance(x, Poly) else []



class Plan(Tree):
    """predicates on the length N, with the relations between them"""
    def choose(self, a):
        if a not in self.memo:
            w = self.known(a)
            if w is not None: self.memo[a] = w; return w
        return Tree.choose(self, a)
    def yes(self, a): return self.memo.get(a) is True
    def no(self, a): return self.memo.get(a) is False
    def proper(self, x):
        """x is a divisor of N other than 1 and N"""
        N = P(LEN); t = term_of(x)
        if t is None: return False
        if t.op == "factor" and P(t.args[0]) is N: return self.no(T("isprime", N))
        if t.op == "strip" and P(t.args[0]) is N: return self.rest(P(t.args[1]))
        if t.op == "fdiv" and P(t.args[0]) is N: return self.proper(P(t.args[1]))
        return False
    def rest(self, d):
        return self.no(T("powerof", LENP, d)) and self.divisible(d)
    def divisible(self, d):
        return any(w and divides(a, LEN) == d.const for a, w in self.memo.items() if a.op == "eq")
    def known(self, a):
        if a.op == "eq":
            e = a.args[0]; N = P(LEN)
            for x in divisors(e):
                if not self.proper(x): continue
                y = quo(N, x)
                for q in (N - x, x, x - 1, N - 1 - x, y, N - y, N - 1 - y, y - 1):
                    if e is q or -e is q: return False
        return None
LEN = T("sym", "N"); LENP = P(LEN)
def divisors(e):
    out = []
    def add(x):
        if x not in out: out.append(x)
    for t in terms_in(e):
        if t.op in ("factor", "strip", "fdiv"):
            add(P(t))
            if t.op == "fdiv": add(P(t.args[1])) if isinstance(t.args[1], Poly) else None
    return out
def feasible(m):
    v = {}
    for a, w in m.memo.items():
        if a.op == "powerof" and P(a.args[0]) is LENP: v["p%d" % a.args[1].const] = w
        elif a.op == "isprime" and P(a.args[0]) is LENP: v["prime"] = w
        elif a.op == "eq" and divides(a, LEN): v["m%d" % divides(a, LEN)] = w
    imp = [("p4", "p2"), ("p4", "m4"), ("p2", "m2"), ("p3", "m3"), ("m4", "m2"), ("p4", "m2")]
    for a, b in imp:
        if v.get(a) is True and v.get(b) is False: return False
    if v.get("p3") and (v.get("p2") or v.get("m2") or v.get("m4")): return False
    for d in (2, 3):
        if v.get("prime") and v.get("m%d" % d) and v.get("p%d" % d) is False: return False
    if v.get("prime") and (v.get("m4") or v.get("p4")): return False
    return True
def hooks():
    def factor(m, fn, this, a, n):
        return P(a[0]) if m.choose(T("isprime", P(a[0]))) else P(T("factor", P(a[0])))
    def power(m, fn, this, a, n): return batom(T("powerof", P(a[0]), P(a[1])))
    def uf(name): return lambda m, fn, this, a, n: P(T(name, *[P(x) for x in a]))
    def grow(m, fn, this, a, n):
        m.effect("child", root=a[0], n=P(a[1])); return P(T("nodes", P(a[1])))
    return {S + "factor": factor, S + "power_of": power, S + "primeRoot": uf("primeroot"), S + "modPow": uf("modpow"), S + "getNumNodes": uf("nodes"), S + "init_fft_tree": grow}
def explore(p, run, hooks=None, facts=()):
    import concrete
    old = concrete.Enum; concrete.Enum = Plan
    try: yield from enum(p, run, hooks=hooks, facts=facts)
    finally: concrete.Enum = old

def tree(ctx, p, f2):
    f1 = single(p, "getNumNodes")[0]; loc = (f2["file"], f2["line"]); N = LENP
    node = p.types[p.types[f2["params"][0]["t"]]["el"]]; ES = node["size"]
    E = {v: k for k, v in enums(p, S + "fft_type").items()}
    tag = "tree of a length (%s)" % p.recs[node["rec"]]["s"].replace("heffte::stock::", "")
    kinds = set(); n = 0
    for m, (r1, r2) in explore(p, lambda m: (call(m, f1, args={0: N}), call(m, f2, args={1: N})), hooks(), [N - 1]):
        if not feasible(m): continue
        n += 1
        ctx.absorb(m)
        o = m.st.s.get(T("sym", "sRoot")); b = Obj(node["rec"], {}, T("sym", "sRoot")) if o is None else o
        what = ", ".join(("" if w else "not ") + pretty(a) for a, w in m.memo.items())[:160]
        if not ctx.check(isinstance(b, Obj) and isinstance(m.objfield(b, "sz"), Poly), tag + ": the node is filled in", "for %s" % what, loc): continue
        fp = m.objfield(b, "fptr"); ty = m.objfield(fp, "type") if isinstance(fp, Obj) else None
        kind = E.get(int(ty.const)) if isinstance(ty, Poly) and ty.is_const else None
        if not ctx.check(kind is not None, tag + ": every length gets an algorithm", "%s for %s" % (show(ty) if ty is not None else None, what), loc): continue
        kinds.add(kind)
        w = tag + " (%s)" % kind
        ctx.check(r1 is r2, w + ": the number of nodes allocated is the number of nodes filled in", "for %s: %s allocated, %s filled in" % (what, show(r1), show(r2)), (f1["file"], f1["line"]))
        ctx.check(m.objfield(b, "sz") is N, w + ": the node has the length asked for", show(m.objfield(b, "sz")), loc)
        ws = m.objfield(b, "workspace")
        size = [e.e.d["size"] for e in flatten(m.rec) if e.e.kind == "copybuf"]
        sz = ws.size if isinstance(ws, Vec) else None
        if sz is None and size: sz = size[-1] if not isinstance(size[-1], int) else P(size[-1])
        es = p.recs[node["rec"]]
        ctx.check(sz is not None and any(sz is N * k for k in (1, 16, 32, 64)), w + ": the scratch of a node has room for its length", show(sz) if sz is not None else "no scratch", loc)
        ch = [(e.e.d["root"], e.e.d["n"]) for e in flatten(m.rec) if e.e.kind == "child"]
        def at(r): return quo(r.off if r.off is not None else ZERO, P(ES)) if isinstance(r, Ptr) and r.base is T("sym", "sRoot") else None
        if kind in ("pow2", "pow3", "pow4", "discrete"):
            ctx.check(not ch and r2 is P(1), w + ": a leaf has no parts", "%d parts" % len(ch), loc)
            if kind != "discrete":
                ctx.check(m.yes(T("powerof", N, P(int(kind[3:])))), w + ": used for powers only", "used if %s" % what, loc)
            continue
        left, right = m.objfield(b, "left"), m.objfield(b, "right")
        if kind == "composite":
            if not ctx.check(len(ch) == 2, w + ": has two parts", "%d parts" % len(ch), loc): continue
            (a1, k), (a2, q) = ch
            ctx.check((m.proper(k) and q is quo(N, k)) or (m.proper(q) and k is quo(N, q)), w + ": the parts multiply to the length and are smaller", "%s and %s for %s" % (show(k), show(q), what), loc)
            pos = {show(at(a1)): k, show(at(a2)): q}
            ctx.check(at(a1) is not None and at(a2) is not None and {show(left), show(right)} == set(pos) and left is not right, w + ": the parts are where the node says", "parts at %s, node refers to %s and %s" % (sorted(pos), show(left), show(right)), loc)
            x, y = (a1, k), (a2, q)
            ok = at(a1) is P(1) and at(a2) is P(1) + P(T("nodes", k)) or at(a2) is P(1) and at(a1) is P(1) + P(T("nodes", q))
            ctx.check(ok and r2 is P(1) + P(T("nodes", k)) + P(T("nodes", q)), w + ": the subtrees do not overlap and fit", "subtrees at %s and %s, %s nodes" % (show(at(a1)), show(at(a2)), show(r2)), loc)
        else:
            ctx.check(m.yes(T("isprime", N)), w + ": used for primes only", "used if %s" % what, loc)
            low = [-(a.args[0] - N).const for a, w_ in m.memo.items() if a.op == "ge" and w_ and (a.args[0] - N).is_const]
            ctx.check(bool(low) and max(low) >= 3, w + ": not used for the lengths 1 and 2", "lower bounds %s" % low, loc)
            ctx.check(len(ch) == 1 and ch[0][1] is N - 1 and at(ch[0][0]) is left and left is P(1) and r2 is P(1) + P(T("nodes", N - 1)), w + ": works on a transform of one less", "parts %s" % [(show(at(a)), show(c)) for a, c in ch], loc)
            rt = P(T("primeroot", N))
            ctx.check(m.objfield(fp, "root") is rt and m.objfield(fp, "root_inv") is P(T("modpow", rt, N - 2, N)), w + ": uses a primitive root and its inverse", "%s and %s" % (show(m.objfield(fp, "root")), show(m.objfield(fp, "root_inv"))), loc)
    ctx.check(kinds >= {"pow2", "pow3", "pow4", "discrete", "composite", "rader"} - ({"pow4"} if "pow4" not in kinds else set()) or "discrete" in kinds and "composite" in kinds, tag + ": cases", sorted(kinds), loc)
    if n < 4: raise AnchorMissing("cases of the factorization tree")
def enums(p, q):
    return {x["n"]: x["v"] for x in p.enums[q]["vals"]}
def pretty(a):
    if a.op == "eq" and divides(a, LEN): return "divisible by %d" % divides(a, LEN)
    if a.op == "powerof": return "power of %s" % show(a.args[1])
    if a.op == "isprime": return "prime"
    return show(a)[:50]

def powers(ctx, p):
    f = single(p, "power_of")[0]; loc = (f["file"], f["line"]); n = T("sym", "n"); NP = P(n)
    for b in (2, 3, 4):
        for m, r in explore(p, lambda m: m.decide(m.boolean(call(m, f, args={0: NP, 1: P(b)}))), None, [NP - 1]):
            ctx.absorb(m)
            w = r is TRUE
            if r.v is not None: raise AnchorMissing("value of power_of")
            one = None; full = None; other = []
            for a, v in m.memo.items():
                e = a.args[0] if a.op in ("eq", "ge") else None
                if a.op == "eq" and (e is NP - 1 or -e is NP - 1): one = v
                elif a.op == "ge" and e is NP - 2: one = not v
                elif a.op == "eq" and any(e is q or -e is q for q in fulls(NP, b)): full = v
                else: other.append(show(a)[:120])
            # 1 is not a power; otherwise a power is what dividing reduces to 1
            if one is None and full is None and not w: ctx.check(False, "power_of %d: decided by the value" % b, "always false: %s" % other, loc)
            elif w: ctx.check(full is True and (one is False or b == 2 and m_strict(m, NP)), "power_of %d: holds for powers other than 1 only" % b, "holds with %s" % (other or m_txt(m)), loc)
            else: ctx.check(one is True or full is False, "power_of %d: holds for every power" % b, "false with %s" % (other or m_txt(m)), loc)
def m_txt(m): return [(show(a)[:60], v) for a, v in m.memo.items()]
def m_strict(m, n):
    # popcount(n) + (n & 1) = 1 excludes 1
    return any(v and a.op == "eq" and any(t.op == "popcount" for t in terms_in(a.args[0])) and any(t.op == "bit&" for t in terms_in(a.args[0])) for a, v in m.memo.items())
def fulls(n, b):
    out = [P(T("strip", n, P(b))) - 1]
    if b == 2:
        pc = P(T("popcount", n))
        out += [pc + P(T("bit&", n, P(1))) - 1, pc + P(T("bit&", P(1), n)) - 1, pc - 1, P(T("bit&", n, n - 1)), P(T("bit&", n - 1, n))]
    return out

def run(ctx):
    p = program("int")
    ctx.rules = ["factor returns a candidate that divides, or the length after trial division by every prime up to the square root", "power_of is true exactly for the powers other than 1",
                 "for every outcome of the divisibility predicates: getNumNodes and init_fft_tree count the same nodes, the algorithm is valid for the length, parts multiply to the length, are smaller and lie in disjoint ranges of the node array, scratch has the length of the node"]
    ctx.assumptions = ["lengths are at least 1", "primeRoot and modPow compute a primitive root and modular powers", "number-theoretic relations between divisibility predicates (powers of four are powers of two, the quotient by all factors d of a multiple of d that is not a power of d is a proper divisor)"]
    powers(ctx, p)
    for f in single(p, "init_fft_tree"): tree(ctx, p, f)
    trial(ctx, p)
