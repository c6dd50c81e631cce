"""P15: sine/cosine transforms through a longer real transform: the composition pre-processing -> real transform -> post-processing,
extracted from the source as linear maps, equals the documented transform."""
from execs import *
from execs import term_subst
from checks import p13 as lines
import math
import numpy as np
TITLE = "Sine/cosine transforms extend and extract signals by the documented symmetry"
TECHNIQUE = "value-flow extraction of the store/transform effects; evaluation in a domain of linear forms for each length up to a bound, compared with the definition of the transform"
LEVEL = "bounded"

class Bad(Exception):
    def __init__(s, why, loc): s.why, s.loc = why, loc
class Lin:
    """memory of linear forms in the entries of the input"""
    def __init__(s, x, env, eff, data, ws, nin, w, limit):
        s.x, s.env, s.data, s.ws, s.n, s.w, s.limit = x, env, data, ws, nin, w, limit
        s.mem = {(data, i * w): (w, s.unit(i)) for i in range(nin)}
        s.used = set(); s.nx = 0
        s.run(eff, {})
    def unit(s, i):
        v = np.zeros(s.n, complex); v[i] = 1; return v
    def num(s, q, env, loc):
        c = subst(P(q), env)
        if not c.is_const: raise Bad("%s is not determined by the sizes" % txt(c), loc)
        if c.const != int(c.const): raise Bad("%s is not an integer" % txt(c), loc)
        return int(c.const)
    def run(s, effs, env):
        for e in effs:
            g = subst(e.g, env) if e.g is not TRUE else TRUE
            if g is FALSE: continue
            if e.kind in ("new", "delete"): continue
            if g is not TRUE: raise Bad("depends on %s" % txt(g), e.loc)
            if e.kind == "loop":
                N = s.num(e.N, env, e.loc)
                for i in range(N):
                    en = dict(env); en[e.n] = P(i); s.run(e.body, en)
            elif e.kind == "write":
                m = e.d["mem"]; off = s.num(e.d["off"], env, e.loc); sz = e.d["size"]
                s.inside(m, off, sz, e.loc)
                s.put(m, off, sz, s.value(P(subst(P(e.d["val"]), env)), e.loc))
            elif e.kind == "xform": s.xform(e, env)
            elif e.kind == "throw": raise Bad("raises %s" % e.d.get("type"), e.loc)
            else: raise Bad("unexpected effect %s" % e.kind, e.loc)
    def put(s, m, off, sz, v):
        for o in range(off - 15, off + sz):
            q = s.mem.get((m, o))
            if q is not None and o + q[0] > off and o != off: del s.mem[(m, o)]
        s.mem[(m, off)] = (sz, v)
    def inside(s, m, off, sz, loc):
        if m is s.data: hi = s.n * s.w; what = "the data"
        elif m is s.ws: hi = s.limit; what = "the advertised work space"
        else: raise Bad("accesses another array", loc)
        if off < 0 or off + sz > hi: raise Bad("bytes %d..%d are outside %s of %d bytes" % (off, off + sz, what, hi), loc)
    def get(s, m, off, sz, loc):
        s.inside(m, off, sz, loc)
        q = s.mem.get((m, off))
        if q is None or q[0] != sz: raise Bad("the %d bytes at offset %d of the %s are read but were never written" % (sz, off, "work space" if m is s.ws else "data"), loc)
        return q[1]
    def atom(s, t, loc):
        if t.op == "load": return s.get(t.args[0], s.num(t.args[1], {}, loc), s.num(t.args[2], {}, loc), loc)
        if t.op in ("re", "im"):
            v = s.value(P(t.args[0]), loc)
            # real or imaginary part of a form with real variables
            return (v.real if t.op == "re" else v.imag).astype(complex)
        if t.op == "conj": return np.conj(s.value(P(t.args[0]), loc))
        return None
    def value(s, q, loc):
        out = np.zeros(s.n, complex)
        for k, c in q.m.items():
            c = complex(float(c)); v = None
            for a, e in k:
                t = Term._byid[a]
                if t.op == "I" or show(t) == "I()": c *= 1j ** e; continue
                y = s.atom(t, loc)
                if y is None or v is not None or e != 1: raise Bad("value %s is not linear" % txt(q), loc)
                v = y
            if v is None:
                if c != 0: raise Bad("adds the constant %s" % c, loc)
                continue
            out = out + c * v
        return out
    def xform(s, e, env):
        s.nx += 1
        d = e.d; x = s.x
        pls = [pl for _, pl in lines.resolve(x, d["plan"])]
        if len(pls) != 1 or pls[0] is None or pls[0].dims is None: raise Bad("the plan is not known", e.loc)
        pl = pls[0]
        if pl.kind not in ("r2c", "c2r"): raise Bad("a %s transform" % pl.kind, e.loc)
        if pl.prec != ("float" if s.w == 4 else "double"): raise Bad("precision", e.loc)
        if len(pl.dims) != 1: raise Bad("%d transformed directions" % len(pl.dims), e.loc)
        N, si, so = [s.num(subst(P(q), s.env), env, e.loc) for q in pl.dims[0]]
        cnt, di, do = [s.num(subst(P(q), s.env), env, e.loc) for q in pl.batch]
        ei, eo = (s.w, 2 * s.w) if pl.kind == "r2c" else (2 * s.w, s.w)
        bi, bo = d["src"].base, d["dst"].base
        oi, oo = s.num(d["src"].off, env, e.loc), s.num(d["dst"].off, env, e.loc)
        ni, no = (N, N // 2 + 1) if pl.kind == "r2c" else (N // 2 + 1, N)
        if N < 1: raise Bad("length %d" % N, e.loc)
        res = []; rd = set()
        for b in range(cnt):
            v = []
            for j in range(ni):
                o = oi + (b * di + j * si) * ei; rd.add((bi, o)); v.append(s.get(bi, o, ei, e.loc))
            v = np.array(v)
            if pl.kind == "r2c":
                F = np.exp((pl.sign or -1) * 2j * np.pi * np.outer(np.arange(no), np.arange(N)) / N); r = F @ v
            else:
                r = np.zeros((N, s.n), complex)
                for k in range(ni):
                    f = np.exp((pl.sign or 1) * 2j * np.pi * k * np.arange(N) / N)[:, None] * v[k][None, :]
                    r += f.real if (k == 0 or 2 * k == N) else 2 * f.real
            for j in range(no): res.append((oo + (b * do + j * so) * eo, r[j]))
        outs = set()
        for o, v in res:
            s.inside(bo, o, eo, e.loc)
            if o in outs: raise Bad("two lines overlap", e.loc)
            outs.add(o)
        for o in outs:
            for z in range(o - ei + 1, o + eo):
                if (bo, z) in rd: raise Bad("input and output of the real transform overlap", e.loc)
        for o, v in res: s.put(bo, o, eo, v)
def definition(kind, fwd, L):
    k, n = np.arange(L)[:, None], np.arange(L)[None, :]
    if kind == "cos1":
        M = 2 * np.cos(np.pi * k * n / (L - 1)); M[:, 0] /= 2; M[:, L - 1] /= 2; return M
    if kind == "sin1": return 2 * np.sin(np.pi * (k + 1) * (n + 1) / (L + 1))
    if kind == "cos":
        if fwd: return 2 * np.cos(np.pi * k * (n + 0.5) / L)
        M = 2 * np.cos(np.pi * (k + 0.5) * n / L); M[:, 0] /= 2; return M
    if fwd: return 2 * np.sin(np.pi * (k + 1) * (n + 0.5) / L)
    M = 2 * np.sin(np.pi * (k + 0.5) * (n + 1) / L); M[:, L - 1] /= 2; return M
def one(ctx, it):
    pr, cls, ci, order = it
    p = program(pr); c = executor_ctors(p)[cls][ci]; nm = cname(p, cls)
    kind = re.search(r"cpu_(\w+?)_pre", nm).group(1)
    x = Exec(p, c, order, (order[0],), least=2 if kind == "cos1" else 1)
    name = "%s, memory order %s" % (nm, "".join(map(str, order)))
    loc = (c["file"], c["line"])
    if not ctx.check(not x.m.st.dead, name + ": can be constructed", "construction fails", loc): return
    wsz = [call(x.m, f, this=x.this) for f in x.method("workspace_size", nparams=0)]
    if len(wsz) != 1: raise AnchorMissing("workspace_size of " + nm)
    hi = 17 if ctx.tier == "thorough" else 9
    for f in x.method("forward") + x.method("backward"):
        ty = [x.m.ty(q["t"])["s"].replace("std::", "") for q in f["params"]]
        if len(ty) != 2 or "complex" in ty[0]: continue
        w = 4 if "float" in ty[0] else 8
        k0 = len(x.m.rec)
        effs, bs, ret = x.run(f); tree = list(x.m.rec)
        t0 = "%s %s(%s)" % (name, f["n"], ", ".join(ty)); fl = (f["file"], f["line"])
        for L in range(2 if kind == "cos1" else 1, hi):
            for oth in ((2, 3), (1, 1)):
                if oth == (1, 1) and L > 4: continue
                sz = [0, 0, 0]; sz[order[0]], sz[order[1]], sz[order[2]] = L, *oth
                sub = {q.atom_term(): P(v) for q, v in zip(x.size, sz)}
                for q in list(sub):
                    for u in deps(q): sub.setdefault(u, u)      # compound terms: their leaves stay themselves
                n = L * oth[0] * oth[1]
                t = "%s: length %d, %d lines" % (t0, L, oth[0] * oth[1])
                ws = subst(P(wsz[0]), sub)
                try:
                    if not ws.is_const: raise Bad("the size of the work space is %s" % txt(ws), fl)
                    r = Lin(x, sub, [e.subst(sub) for e in tree], bs[0], bs[1], n, w, int(ws.const) * w)
                    if r.nx != 1: raise Bad("%d real transforms" % r.nx, fl)
                    M = definition(kind, f["n"] == "forward", L)
                    ratio = None
                    for line in range(oth[0] * oth[1]):
                        for i in range(L):
                            got = r.get(bs[0], (line * L + i) * w, w, fl)
                            want = np.zeros(n, complex); want[line * L:(line + 1) * L] = M[i]
                            if ratio is None:
                                j = int(np.argmax(abs(want))); ratio = got[j] / want[j]
                                ok = abs(ratio - 1) < 1e-9 or (f["n"] == "backward" and abs(ratio - 2) < 1e-9)
                                if not ok: raise Bad("the result is %s times the transform" % ratio, fl)
                            if np.max(abs(got - ratio * want)) > 1e-9 * 4 * L:
                                j = int(np.argmax(abs(got - ratio * want)))
                                raise Bad("entry %d of line %d depends on entry %d of line %d with weight %.6g instead of %.6g" % (i, line, j % L, j // L, got[j].real, (ratio * want[j]).real), fl)
                    ctx.check(True, t)
                except Bad as b: ctx.check(False, t, b.why, b.loc)
    ctx.absorb(x.m)
def run(ctx):
    ctx.rules = ["for each length within the bound: the extracted pre-processing, real transform (as planned: length, strides, distances) and post-processing compose to the DCT-I/II/III or DST-II/III matrix (times 2 for backward, as the scaling factor assumes)",
                 "every entry the real transform reads was written, all accesses lie inside the data and inside workspace_size() entries, source and result of the real transform are apart"]
    ctx.assumptions = ["the real transform computes the DFT it was planned for (P13, P14)", "length 1 has no cosine transform of type I"]
    its = []
    for pr in (("int", "long long") if ctx.tier == "thorough" else ("int",)):
        p = program(pr); ex = executor_ctors(p); k = 0
        for cls, cs in ex.items():
            nm = cname(p, cls)
            if not nm.startswith("real2real") or "fftw" in nm: continue
            for ci, c in enumerate(cs):
                if sum(1 for x in c["params"] if p.types[x["t"]]["k"] == "int") == 1:
                    k += 1
                    for o in ORDERS: its.append((pr, cls, ci, o))
        if k < 5: raise AnchorMissing("sine/cosine executors: %d" % k)
    ctx.parallel(its, one)
