"""Abstract interpreter over the syntax tree of a Python module: named opaque values, path enumeration over undetermined conditions."""
import ast
class PyRaise(Exception):
    def __init__(self, name): self.name = name
class PyReturn(Exception):
    def __init__(self, v): self.v = v
class Unsupported(Exception): pass
class NeedChoice(Exception): pass
class S:
    """opaque value"""
    tab = {}
    def __new__(cls, *k):
        k = tuple(k)
        if k not in S.tab:
            o = object.__new__(cls); o.k = k; o.at = {}; S.tab[k] = o
        return S.tab[k]
    def __repr__(self): return ".".join(map(str, self.k[1:])) if self.k[0] == "n" else "%s(%s)" % (self.k[0], ", ".join(map(repr, self.k[1:])))
class Fn:
    def __init__(self, node, env, name): self.node = node; self.env = env; self.name = name
class Cls:
    def __init__(self, name, attrs, bases): self.name = name; self.at = attrs; self.bases = bases
    def __repr__(self): return self.name
class Inst:
    n = 0
    def __init__(self, cls): self.cls = cls; self.at = {}; Inst.n += 1; self.id = Inst.n
    def __repr__(self): return "<%s>" % self.cls.name
class Bound:
    def __init__(self, fn, me): self.fn = fn; self.me = me
def keyof(v):
    if isinstance(v, S): return v
    if isinstance(v, Inst): return ("inst", v.id)
    if isinstance(v, (list, tuple)): return tuple(keyof(x) for x in v)
    if isinstance(v, (Fn, Cls, Bound)): return id(v)
    return v
class Env(dict):
    def __init__(self, up=None): super().__init__(); self.up = up
    def find(self, n):
        e = self
        while e is not None:
            if n in e: return e[n]
            e = e.up
        raise KeyError(n)
class Py:
    BUILTINS = {"int", "float", "str", "len", "min", "max", "print", "range", "type", "bool", "isinstance", "object", "property", "staticmethod", "Exception", "ValueError", "RuntimeError", "TypeError", "hasattr", "getattr", "callable", "sum", "list", "tuple", "dict", "abs"}
    def __init__(self, tree, facts=None, script=None, distinct=()):
        self.tree = tree; self.env = Env(); self.facts = dict(facts or {}); self.script = list(script or []); self.taken = []
        self.calls = []; self.distinct = set(distinct); self.lines = {}; self.depth = 0
    # ------------------------------------------------------------ conditions
    def decide(self, key):
        if key in self.facts: return self.facts[key]
        if len(self.taken) < len(self.script): v = self.script[len(self.taken)]
        else: v = True
        self.taken.append((key, v)); self.facts[key] = v
        return v
    def truth(self, v):
        if isinstance(v, (bool, int, float, str, list, tuple)) or v is None: return bool(v)
        if isinstance(v, tuple): return bool(v)
        if isinstance(v, C): return self.decide(v.key) != v.neg
        if isinstance(v, S): return self.decide(("true", v))
        return True
    def module(self):
        for s in self.tree.body: self.stmt(s, self.env)
    # ------------------------------------------------------------ statements
    def block(self, b, env):
        for s in b: self.stmt(s, env)
    def stmt(self, s, env):
        t = type(s).__name__
        f = getattr(self, "s_" + t, None)
        if f is None: raise Unsupported("%s at line %d" % (t, s.lineno))
        f(s, env)
    def s_Import(self, s, env):
        for a in s.names: env[a.asname or a.name.split(".")[0]] = S("n", a.name if a.asname else a.name.split(".")[0])
    def s_ImportFrom(self, s, env):
        for a in s.names:
            if a.name != "*": env[a.asname or a.name] = S("n", a.name)
    def s_FunctionDef(self, s, env):
        fn = Fn(s, env, s.name); fn.defaults = [self.ev(d, env) for d in s.args.defaults]; env[s.name] = fn
    def s_ClassDef(self, s, env):
        e = Env(env)
        for x in s.body: self.stmt(x, e)
        env[s.name] = Cls(s.name, e, [self.ev(b, env) for b in s.bases])
    def s_Expr(self, s, env): self.ev(s.value, env)
    def s_Pass(self, s, env): pass
    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): raise PyRaise("AssertionError")
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
    def s_AugAssign(self, s, env): self.assign(s.target, self.binop(type(s.op).__name__, self.ev(s.target, env), self.ev(s.value, env)), env)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if hasattr(o, "at"):
                if isinstance(o, S): self.sat(o)[t.attr] = v
                else: o.at[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v if isinstance(v, (list, tuple)) else [S("item", keyof(v), i) for i in range(len(t.elts))]
            for x, y in zip(t.elts, vs): self.assign(x, y, env)
        elif isinstance(t, ast.Subscript): self.ev(t.value, env)
        else: raise Unsupported("assignment")
    def sat(self, o):
        self.store = getattr(self, "store", {})
        return self.store.setdefault(o, {})
    def s_If(self, s, env): self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
    def s_Return(self, s, env): raise PyReturn(self.ev(s.value, env) if s.value is not None else None)
    def s_Raise(self, s, env):
        v = self.ev(s.exc, env) if s.exc is not None else None
        raise PyRaise(v.cls.name if isinstance(v, Inst) else v.name if isinstance(v, Cls) else repr(v))
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, (list, tuple, range)):
            for x in it: self.assign(s.target, x, env); self.block(s.body, env)
        else: raise Unsupported("loop at line %d" % s.lineno)
    def s_With(self, s, env): self.block(s.body, env)
    def s_Try(self, s, env):
        try: self.block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or getattr(h.type, "id", "") in (e.name, "Exception"): self.block(h.body, env); break
            else: raise
        finally: self.block(s.finalbody, env)
    def s_Delete(self, s, env): pass
    def s_Global(self, s, env): pass
    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        t = type(e).__name__
        f = getattr(self, "e_" + t, None)
        if f is None: raise Unsupported("%s at line %d" % (t, e.lineno))
        return f(e, env)
    def e_Constant(self, e, env): return e.value
    def e_Name(self, e, env):
        try: return env.find(e.id)
        except KeyError: return S("n", e.id)
    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)
    def getattr(self, o, a):
        if isinstance(o, Inst):
            if a in o.at: return o.at[a]
            v = self.clsattr(o.cls, a)
            if isinstance(v, Fn): return Bound(v, o)
            if v is not None: return v
            return S("attr", ("inst", o.id), a)
        if isinstance(o, Cls):
            v = self.clsattr(o, a)
            return S("n", o.name, a) if v is None else v
        if isinstance(o, S):
            if a in getattr(self, "store", {}).get(o, {}): return self.store[o][a]
            return S("n", *(o.k[1:] + (a,))) if o.k[0] == "n" else S("attr", o, a)
        if isinstance(o, (dict, list, str)): return CM(o, a)
        return S("attr", keyof(o), a)
    def clsattr(self, c, a):
        if a in c.at: return c.at[a]
        for b in c.bases:
            if isinstance(b, Cls):
                v = self.clsattr(b, a)
                if v is not None: return v
        return None
    def e_List(self, e, env): return [self.ev(x, env) for x in e.elts]
    def e_Tuple(self, e, env): return tuple(self.ev(x, env) for x in e.elts)
    def e_Set(self, e, env): return [self.ev(x, env) for x in e.elts]
    def e_Dict(self, e, env): return {keyof(self.ev(k, env)): self.ev(v, env) for k, v in zip(e.keys, e.values)}
    def e_IfExp(self, e, env): return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
    def e_Lambda(self, e, env):
        fn = Fn(e, env, "lambda"); fn.defaults = [self.ev(d, env) for d in e.args.defaults]; return fn
    def e_JoinedStr(self, e, env):
        r = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, env)
                if not isinstance(v, (str, int)) or x.format_spec is not None: return S("text")
                r.append(str(v))
            else: r.append(str(x.value))
        return "".join(r)
    def e_Subscript(self, e, env):
        v = self.ev(e.value, env); i = self.ev(e.slice, env)
        if isinstance(v, (list, tuple)) and isinstance(i, int): return v[i]
        if isinstance(v, dict) and keyof(i) in v: return v[keyof(i)]
        if isinstance(v, dict): raise PyRaise("KeyError")
        return S("item", keyof(v), keyof(i))
    def e_Slice(self, e, env): return S("slice")
    def e_Starred(self, e, env): return self.ev(e.value, env)
    def comp(self, gens, env, out):
        if not gens: out(env); return
        g = gens[0]; it = self.ev(g.iter, env)
        if isinstance(it, dict): it = list(it)
        if not isinstance(it, (list, tuple, range)): raise Unsupported("comprehension over an unknown range")
        for x in it:
            e = Env(env); self.assign(g.target, x, e)
            if all(self.truth(self.ev(c, e)) for c in g.ifs): self.comp(gens[1:], e, out)
    def e_ListComp(self, e, env):
        r = []; self.comp(e.generators, env, lambda x: r.append(self.ev(e.elt, x))); return r
    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp
    def e_DictComp(self, e, env):
        r = {}; self.comp(e.generators, env, lambda x: r.__setitem__(keyof(self.ev(e.key, x)), self.ev(e.value, x))); return r
    def e_BinOp(self, e, env): return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))
    def binop(self, op, a, b):
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            try: return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Div": lambda: a / b}[op]()
            except KeyError: pass
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == "Add": return list(a) + list(b)
        if isinstance(a, str) and isinstance(b, str) and op == "Add": return a + b
        if isinstance(a, (list, tuple)) and isinstance(b, int) and op == "Mult": return list(a) * b
        return S(op, keyof(a), keyof(b))
    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env); o = type(e.op).__name__
        if o == "Not": return not self.truth(v)
        if o == "USub" and isinstance(v, (int, float)): return -v
        return S(o, keyof(v))
    def e_BoolOp(self, e, env):
        r = None
        for x in e.values:
            r = self.ev(x, env)
            if isinstance(e.op, ast.And) and not self.truth(r): return r
            if isinstance(e.op, ast.Or) and self.truth(r): return r
        return r
    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for o, x in zip(e.ops, e.comparators):
            r = self.ev(x, env)
            if not self.truth(self.cmp(type(o).__name__, l, r)): return False
            l = r
        return True
    def eq(self, a, b):
        if keyof(a) == keyof(b): return True
        if not isinstance(a, S) and not isinstance(b, S): return False
        if a in self.distinct and b in self.distinct if isinstance(a, S) and isinstance(b, S) else False: return False
        if (a in self.distinct if isinstance(a, S) else False) and not isinstance(b, S): return False
        return C(("eq",) + tuple(sorted((keyof(a), keyof(b)), key=repr)), False)
    def cmp(self, op, a, b):
        if op in ("Eq", "Is"): return self.eq(a, b)
        if op in ("NotEq", "IsNot"):
            r = self.eq(a, b)
            return C(r.key, not r.neg) if isinstance(r, C) else not r
        if op in ("In", "NotIn"):
            if not isinstance(b, (list, tuple, dict)): return C(("in", keyof(a), keyof(b)), op == "NotIn")
            r = any(self.truth(self.eq(a, x)) for x in b)
            return r if op == "In" else not r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if op == "Lt": return C(("lt", keyof(a), keyof(b)), False)
        if op == "GtE": return C(("lt", keyof(a), keyof(b)), True)
        if op == "Gt": return C(("lt", keyof(b), keyof(a)), False)
        return C(("lt", keyof(b), keyof(a)), True)
    def e_Call(self, e, env):
        f = self.ev(e.func, env); a = []
        for x in e.args:
            v = self.ev(x, env)
            if isinstance(x, ast.Starred) and isinstance(v, (list, tuple)): a += list(v)
            else: a.append(v)
        k = {x.arg: self.ev(x.value, env) for x in e.keywords}
        return self.call(f, a, k, e.lineno)
    def call(self, f, a, k=None, line=0):
        k = k or {}
        if isinstance(f, Bound): return self.call(f.fn, [f.me] + a, k, line)
        if isinstance(f, Cls):
            o = Inst(f); i = self.clsattr(f, "__init__")
            if isinstance(i, Fn): self.call(i, [o] + a, k, line)
            else: o.init = (a, k)
            return o
        if isinstance(f, Fn):
            self.depth += 1
            if self.depth > 30: raise Unsupported("recursion")
            e = Env(f.env); ar = f.node.args; names = [x.arg for x in ar.args]
            if len(a) > len(names): raise PyRaise("TypeError")
            for n, v in zip(names, a): e[n] = v
            for n, v in k.items(): e[n] = v
            for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
                if n not in e: e[n] = d
            for n in names:
                if n not in e: raise PyRaise("TypeError")
            for n, d in zip(ar.kwonlyargs, ar.kw_defaults):
                if n.arg not in e and d is not None: e[n.arg] = self.ev(d, f.env)
            try:
                if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, e)
                self.block(f.node.body, e)
            except PyReturn as r: return r.v
            finally: self.depth -= 1
            return None
        if isinstance(f, CM): return self.method(f.o, f.a, a)
        if isinstance(f, S):
            n = f.k[-1]
            if f.k[0] == "n" and len(f.k) == 2 and n in ("int", "float") and len(a) == 1: return a[0]
            if f.k[0] == "n" and len(f.k) == 2 and n == "range" and all(isinstance(x, int) for x in a): return list(range(*a))
            if f.k[0] == "n" and len(f.k) == 2 and n == "len" and isinstance(a[0], (list, tuple)): return len(a[0])
            if f.k[0] == "n" and len(f.k) == 2:
                r = self.builtin(n, a, k)
                if r is not None: return r[0]
            self.calls.append((f, a, k, line))
            if n in ("LoadLibrary", "CDLL"): return S("n", "libheffte")
            return S("call", f, keyof(a), keyof(sorted(k.items())))
        raise Unsupported("call of %r" % (f,))
    def method(self, o, n, a):
        if isinstance(o, dict):
            if n == "get": return o.get(keyof(a[0]), a[1] if len(a) > 1 else None)
            if n == "items": return [(k, v) for k, v in o.items()]
            if n == "keys": return list(o)
            if n == "values": return list(o.values())
        if isinstance(o, list) and n == "append": o.append(a[0]); return None
        if isinstance(o, list) and n == "extend" and isinstance(a[0], (list, tuple)): o.extend(a[0]); return None
        if isinstance(o, str) and n in ("upper", "lower", "strip", "replace", "startswith", "endswith") and all(isinstance(x, str) for x in a): return getattr(o, n)(*a)
        return S("text")
    def builtin(self, n, a, k):
        seq = (list, tuple, range)
        if n in ("getattr", "setattr", "hasattr", "delattr") and len(a) > 1 and isinstance(a[1], str):
            if n == "getattr": return (self.getattr(a[0], a[1]),)
            if n == "setattr":
                if isinstance(a[0], (Inst, Cls)): a[0].at[a[1]] = a[2]
                else: self.sat(a[0])[a[1]] = a[2]
                return (None,)
            if n == "hasattr" and isinstance(a[0], Inst): return (a[1] in a[0].at or self.clsattr(a[0].cls, a[1]) is not None,)
        if n in ("list", "tuple", "set", "sorted", "reversed") and len(a) == 1 and isinstance(a[0], seq): return (list(reversed(a[0])) if n == "reversed" else list(a[0]),)
        if n in ("list", "tuple", "set") and not a: return ([],)
        if n == "zip" and all(isinstance(x, seq) for x in a): return ([tuple(x) for x in zip(*a)],)
        if n == "enumerate" and isinstance(a[0], seq): return ([tuple(x) for x in enumerate(a[0])],)
        if n in ("all", "any") and len(a) == 1 and isinstance(a[0], seq):
            for x in a[0]:
                t = self.truth(x)
                if t != (n == "all"): return (t,)
            return (n == "all",)
        if n == "bool" and len(a) == 1: return (self.truth(a[0]),)
        if n == "dict" and not a: return (dict(k),)
        if n == "str" and len(a) == 1 and isinstance(a[0], (str, int)): return (str(a[0]),)
        return None
class CM:
    """method of a concrete value"""
    def __init__(self, o, a): self.o = o; self.a = a
class C:
    """an undetermined condition"""
    def __init__(self, key, neg): self.key = key; self.neg = neg
def explore(make, limit=4000):
    """run make(script) -> Py-like result over all outcomes of undetermined conditions"""
    script = []; n = 0
    while True:
        r = make(script); n += 1
        yield r
        t = [v for _, v in r[0].taken]
        while t and t[-1] is False: t.pop()
        if not t: return
        script = t[:-1] + [False]
        if n > limit: raise Unsupported("too many paths")
