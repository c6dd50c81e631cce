"""P04: non-blocking communication."""
from reshape import *
TITLE = "Non-blocking communication is always completed before buffers are reused"
TECHNIQUE = "typestate analysis of MPI requests over the derived communication trace"

def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
def request_slot(ctx, name, f):
    """request array written by a non-blocking call: (array pointer, ok)"""
    r = f.e.d["args"][-1]
    if not isinstance(r, Ptr) or r.off is None or len(f.loops) != 1: return None
    n, N = f.loops[0]
    base = subst(r.off, {n: ZERO}); st = subst(r.off, {n: ONE}) - base
    if not (st.is_const and st.const != 0 and r.off is base + P(n) * st and base is ZERO): return None
    return r
def samearr(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base and a.path == b.path
def p2p(ctx, t, name):
    loc = (t.apply["file"], t.apply["line"])
    flat = t.flat
    posts = calls(t, "MPI_Irecv", "MPI_Isend", "MPI_Issend", "MPI_Recv_init", "MPI_Send_init")
    waits = calls(t, "MPI_Wait", "MPI_Waitall", "MPI_Waitany", "MPI_Waitsome", "MPI_Test", "MPI_Testall")
    ps = pks(t)
    for i, f in posts:
        q = f.e.d["q"]; nm = "%s: %s" % (name, q)
        r = request_slot(ctx, nm, f)
        if not ctx.check(r is not None, nm + " uses a separate request for each message", txt(f.e.d["args"][-1]), f.e.loc): continue
        n, N = f.loops[0]
        vec = t.m.read(LV(r.base, r.path)) if r.path or True else None
        if isinstance(vec, Vec): ctx.check(same_count(vec.size, N) or nonneg(vec.size - N), nm + " has a request object for every message", "%s requests, %s messages" % (txt(vec.size), txt(N)), f.e.loc)
        ws = [(j, w) for j, w in waits if any(samearr(a, r) for a in w.e.d["args"])]
        others = [(j, w) for j, w in waits if w.g is not TRUE and not implies(f.g, w.g)]
        # waitall
        done = None
        for j, w in ws:
            k = w.e.d["q"]; a = w.e.d["args"]
            if j < i and not (w.loops and f.loops and w.loops[0][0] is f.loops[0][0]): continue
            if k == "MPI_Waitall" and implies(f.g, w.g) and not w.loops and same_count(a[0], N) and a[1].off is ZERO: done = ("all", j, w); break
            if k == "MPI_Waitany" and implies(f.g, w.g) and len(w.loops) == 1 and same_count(w.loops[0][1], N) and same_count(a[0], N) and a[1].off is ZERO: done = ("any", j, w); break
            if k == "MPI_Wait" and implies(f.g, w.g) and len(w.loops) == 1 and same_count(w.loops[0][1], N) and isinstance(a[0], Ptr) and a[0].off is subst(r.off, {n: P(w.loops[0][0])}): done = ("each", j, w); break
        if not ctx.check(done is not None, nm + ": every posted operation is completed before the redistribution ends", "requests %s are completed by %s" % (r, [(w.e.d["q"], txt(w.e.d["args"][0]), [(show(x), show(M)) for x, M in w.loops], show(w.g)) for j, w in ws]), f.e.loc): continue
        how, j, w = done
        ctx.check(j > i, nm + ": completion follows the start", "", w.e.loc)
        if q.startswith("MPI_Irecv"):
            un = [x for x in ps if x.op == "unpack" and x.v is not t.me]
            for x in un:
                at = x.v.atom_term(); xi = at.args[1] if at is not None and at.op == "peer" else None
                if how == "any":
                    ok = x.pos > j and xi is not None and waitany_out(xi) and any(l[0] is w.loops[0][0] for l in x.fl.loops) and owns(w, xi, flat, j)
                    why = "unpacks %s in iteration %s" % (txt(x.v), [(show(a), show(b)) for a, b in x.fl.loops])
                elif how == "all": ok = x.pos > j; why = "unpacked before the wait"
                else:
                    ok = x.pos > j and (any(l[0] is w.loops[0][0] for l in x.fl.loops) and xi is P(w.loops[0][0]) or not any(l[0] is w.loops[0][0] for l in x.fl.loops)); why = "unpacks %s" % txt(x.v)
                ctx.check(ok, nm + ": data is unpacked only after its own message has arrived", why, x.loc)
        else:
            # no pack may touch the message buffers between the start and the completion, except its own later slots
            for x in ps:
                if x.op != "pack": continue
                shared = any(l[0] is n for l in x.fl.loops)
                if x.pos > i and x.pos < j and not shared and x.v is not t.me:
                    ctx.check(False, nm + ": send buffers are not rewritten while messages are in flight", "", x.loc)
    for i, f in calls(t, "MPI_Irecv", "MPI_Isend"):
        pass
    # every completion belongs to a started operation
    for j, w in waits:
        arr = [a for a in w.e.d["args"] if isinstance(a, Ptr)]
        st = [f for i, f in posts if any(samearr(a, f.e.d["args"][-1]) for a in arr)]
        N = None
        cnt = w.e.d["args"][0]
        zero = isinstance(cnt, Poly) and (same_count(cnt, ZERO))
        ctx.check(bool(st) and any(implies(w.g, f.g) for f in st) or zero, "%s: %s completes operations started in the same redistribution" % (name, w.e.d["q"]), "%s" % arr, w.e.loc)
def owns(w, xi, flat, j):
    """the index comes from this MPI_Waitany call"""
    at = xi.atom_term()
    outs = [k for k, f in enumerate(flat) if f.e.kind == "call" and f.e.d["q"] == "MPI_Waitany"]
    return len(outs) == 1
def one(ctx, p, c):
    t = get_trace(p, c); ctx.absorb(t.m); name = cname(c)
    if t.null: ctx.ok(name + ": no communication"); return
    ps = pks(t)
    if any(x.err for x in ps):
        ctx.check(False, name + ": messages follow the plan", [x.err for x in ps if x.err][0], [x for x in ps if x.err][0].loc); return
    if c[0] == "pointtopoint": p2p(ctx, t, name)
    else:
        nb = [f for i, f in calls(t, "MPI_Ialltoall", "MPI_Ialltoallv")]
        ws = calls(t, "MPI_Wait", "MPI_Waitall")
        ctx.check(not nb or ws, name + ": non-blocking collectives are completed", "", nb[0].e.loc if nb else None)
        cs = calls(t, "MPI_Alltoall", "MPI_Alltoallv")
        for i, f in cs:
            for x in ps: ctx.check((x.pos < i) == (x.op == "pack"), name + ": packing precedes and unpacking follows the exchange", "", x.loc)
def run(ctx):
    ctx.rules = ["each non-blocking start has its own request; the same number of requests is waited for on every path before the redistribution returns; a received block is unpacked only after the wait that names it; send slots are not rewritten before completion"]
    ctx.assumptions = ["MPI_Waitany returns each active request exactly once"]
    p = program("int")
    ctx.parallel(configs(ctx.tier), lambda ctx, c: one(ctx, p, c))
