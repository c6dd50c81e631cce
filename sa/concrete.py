"""Abstract execution over a finite predicate abstraction: every undetermined condition is resolved both ways (decision tree),
so that loops over small, fully known index sets are followed exactly while the predicates themselves stay arbitrary."""
from harness import *
from interp import Machine

class Enum(Machine):
    UNROLL = 400
    def setup(self, script, rule=None, key=None):
        self.script = script; self.pos = 0; self.trail = []; self.memo = {}; self.rule = rule
    def choose(self, what):
        """an outcome for the named predicate, the same each time it is asked"""
        if what in self.memo: return self.memo[what]
        w = self.rule(what) if self.rule else None
        if w is None:
            if self.pos < len(self.script): w = self.script[self.pos]
            else: w = True; self.script.append(w)
            self.pos += 1
        self.memo[what] = w
        return w
    def decide(self, c):
        r = Machine.decide(self, c)
        while r.v is not None:
            a = min(bd_support(r), key=lambda t: t.id)
            r = self.restrict(r, a, self.choose(a))
        return r
def enum(p, run, hooks=None, facts=(), rule=None, limit=200000):
    """run(m) for every outcome of the undetermined predicates; yields (m, result)"""
    script = []; k = 0
    while True:
        m = Enum(p, hooks, facts)
        m.frames.append(Frame({"file": "entry", "q": "entry", "ret": 0, "k": "func"}, None))
        m.setup(script, rule)
        yield m, run(m)
        k += 1
        if k > limit: raise AnchorMissing("more than %d cases" % limit)
        script = script[:m.pos]
        while script and script[-1] is False: script.pop()
        if not script: return
        script[-1] = False
