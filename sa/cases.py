"""Case analysis over the sign of max0/indicator arguments; linear facts decide each case."""
from harness import *
import dom
def splits(x, out=None):
    """innermost case conditions (polys p meaning p>=0 or p<0) below x"""
    if out is None: out = {}
    def term(t):
        for a in t.args: walk(a)
        if t.op == "max0": out.setdefault(("ge", t.args[0]), None)
        elif t.op == "ge": out.setdefault(("ge", t.args[0]), None)
        elif t.op == "eq": out.setdefault(("eq", t.args[0]), None)
    def walk(a):
        if isinstance(a, Term): term(a)
        elif isinstance(a, Poly):
            for i in a.atoms(): term(Term._byid[i])
        elif isinstance(a, BD):
            for t in bd_support(a): term(t)
        elif isinstance(a, (tuple, list)):
            for b in a: walk(b)
    walk(x)
    return list(out)
def clean(p): return not [s for s in splits(p)]
def consistent(facts): return not dom.fm_entails(facts, P(-1))
def apply_case(xs, kind, p, w):
    """rewrite under p>=0 (w) / p<0, or p==0 / p!=0"""
    m = {}
    t = T("max0", p)
    if kind == "ge": m[t] = p if w else ZERO
    if kind == "ge":
        g = T("ge", p); m[g] = TRUE if w else FALSE
    else: m[T("eq", p)] = TRUE if w else FALSE
    mm = dict(m)
    for t in m:
        for l in deps(t): mm.setdefault(l, l)
    return [subst(x, mm) for x in xs]
def cases(xs, facts, depth=0):
    """yields (facts, values without case distinctions)"""
    ss = []
    for x in xs: ss += [s for s in splits(x) if s not in ss]
    ss = [s for s in ss if clean(s[1])]
    if not ss:
        yield facts, xs; return
    if depth > 40: raise AnchorMissing("too many cases")
    kind, p = ss[0]
    if kind == "ge":
        for w, f in ((True, [p]), (False, [-p - 1])):
            fs = facts + f
            if consistent(fs): yield from cases(apply_case(xs, kind, p, w), fs, depth + 1)
    else:
        fs = facts + [p, -p]
        if consistent(fs): yield from cases(apply_case(xs, kind, p, True), fs, depth + 1)
        for f in ([p - 1], [-p - 1]):
            fs = facts + f
            if consistent(fs): yield from cases(apply_case(xs, kind, p, False), fs, depth + 1)
def prove_ge0(p, facts): return all(dom.fm_entails(fs, ys[0]) for fs, ys in cases([P(p)], list(facts)))
def prove_eq0(p, facts):
    for fs, ys in cases([P(p)], list(facts)):
        if ys[0] == ZERO: continue
        if not (dom.fm_entails(fs, ys[0]) and dom.fm_entails(fs, -ys[0])): return False
    return True
