"""P07: work space of the redistributions."""
from reshape import *
from checks.p03 import eqp, txt, exact
TITLE = "Redistribution work space is within the advertised size"
TECHNIQUE = "value-flow analysis: symbolic upper bound of every work-space access against size_workspace()"

def workspace_size(t):
    m = t.m
    q = "heffte::reshape3d_%s::size_workspace" % t.which
    cls = t.apply["cls"]
    fs = [f for f in fns(t.m.p, q) if f["cls"] == cls]
    if not fs:
        base = [b for b in t.m.p.recs[cls].get("bases", [])]
        fs = [f for f in fns(t.m.p, "heffte::reshape3d_base::size_workspace") if (f.get("ta") or t.m.p.recs[f["cls"]].get("ta") or [t.L.index])[0] == t.L.index]
    if not fs: raise AnchorMissing("size_workspace of reshape3d_" + t.which)
    return call(m, fs[0], {}, this=t.this)
def one(ctx, p, c):
    t = get_trace(p, c); ctx.absorb(t.m); name = cname(c)
    if t.null: ctx.ok(name + ": no work space is used"); return
    loc = (t.apply["file"], t.apply["line"])
    n0 = len(t.m.rec)
    ws = workspace_size(t); del t.m.rec[n0:]
    if not ctx.check(isinstance(ws, Poly), name + ": the advertised size is a number", repr(ws), loc): return
    ps = pks(t)
    if any(x.err for x in ps):
        ctx.check(False, name + ": packing follows the plan", [x.err for x in ps if x.err][0], [x for x in ps if x.err][0].loc); return
    B = P(t.batch); es = t.es
    boxc = {"pack": P(T("boxcount", T("idx", T("sym", "INB"), t.me))), "unpack": P(T("boxcount", T("idx", T("sym", "OUTB"), t.me)))}
    S = dict(zip(("pack", "unpack"), sides(t)))
    G = P(T("size", T("sym", "group"))) + 1
    limit = B * ws * es
    send = [x for x in ps if x.op == "pack"]; recv = [x for x in ps if x.op == "unpack"]
    # regions written by packing / by MPI: region [lo, hi) in bytes
    regs = []
    for x in ps:
        if not ctx.check(isinstance(x.msg, Ptr) and x.msg.base is t.WS, name + ": messages are in the work space", repr(x.msg), x.loc): return
        j = x.j.atom_term()
        off = dropnull(x.msg.off)
        base = subst(off, {j: ZERO}); st = dropnull(under(x.fl.g, subst(off, {j: ONE}) - base))
        cnt = peer_count(t, x)
        selfp = x.v is t.me
        if t.which == "alltoall":
            n = x.peers[0][0]; lo = subst(base, {n: ZERO}); E = exact(st, es)
            span = subst(base, {n: ONE}) - lo
            hi = lo + G * span
            ctx.check(eqp(x.fl.g, span, B * st), name + ": %s slots of %d members are adjacent" % (x.op, 0), txt(span), x.loc)
            regs.append((x, lo, hi)); continue
        # all other algorithms: slots are running sums over the peers
        if selfp: regs.append((x, base, base + B * cnt * es)); continue
        kk = group_member(x.v) if t.which == "alltoallv" else x.v.atom_term().args[1]
        nn = kk.atom_term()
        if nn is None: ctx.check(False, name + ": slots are enumerated", txt(kk), x.loc); continue
        lo = dropnull(subst(base, {nn: ZERO}))
        inc = subst(base, {nn: P(nn) + 1}) - base
        ind = bd_poly(x.fl.g) if t.which == "alltoallv" else ONE
        want = B * cnt * es * ind
        N = G if t.which == "alltoallv" else (npeers(S[x.op]) - (1 if t.case["selfcomm"] else 0))
        if inc is ZERO:      # one slot reused by blocking sends: each message is one overlap of the box
            regs.append((x, lo, lo + B * boxc[x.op] * es)); continue
        if not ctx.check(eqp(TRUE, inc, want), name + ": %s slots advance by the message size" % x.op, txt(inc), x.loc): continue
        # sum over peers of disjoint overlaps <= number of elements of the box
        regs.append((x, lo, lo + B * boxc[x.op] * es))
    # the own part of the box occupies the last slot of the region of the received data
    for x, lo, hi in regs:
        if x.v is t.me and t.which == "pointtopoint":
            oth = [r for r in regs if r[0].op == "unpack" and r[0].v is not t.me]
            if oth:
                y, l2, h2 = oth[0]
                nn = y.v.atom_term().args[1].atom_term()
                yb = subst(dropnull(y.msg.off), {y.j.atom_term(): ZERO})
                end = dropnull(subst(yb, {nn: npeers(S["unpack"]) - 1}))
                ctx.check(eqp(TRUE, end, lo), name + ": the own part follows the received parts", "own part at %s, received parts end at %s" % (txt(lo), txt(end)), x.loc)
                continue
        nn_ok = nonneg_facts(t, lo)
        ctx.check(nn_ok, name + ": %s slots start inside the work space" % x.op, txt(lo), x.loc)
        ctx.check(le_facts(t, hi, limit), name + ": %s slots end inside the work space" % x.op, "end %s, size %s" % (txt(hi), txt(limit)), x.loc)
    # send and receive regions are disjoint
    sends = [r for r in regs if r[0].op == "pack" and not (r[0].v is t.me and t.which == "pointtopoint")]
    recvs = [r for r in regs if r[0].op == "unpack"]
    for a in sends:
        for b in recvs:
            if b[0].v is t.me and t.which == "pointtopoint": continue
            ctx.check(le_facts(t, a[2], b[1]) or le_facts(t, b[2], a[1]), name + ": sent and received messages do not overlap", "sent [%s, %s) received [%s, %s)" % tuple(map(txt, (a[1], a[2], b[1], b[2]))), b[0].loc)
    # buffers handed to the collectives
    for i, f in calls(t, "MPI_Alltoall", "MPI_Alltoallv"):
        a = f.e.d["args"]
        rb = a[3] if f.e.d["q"] == "MPI_Alltoall" else a[4]
        for what, buf, rs in (("send", a[0], sends), ("receive", rb, recvs)):
            for r in rs: ctx.check(isinstance(buf, Ptr) and buf.base is t.WS and eqp(f.g, buf.off, r[1]), name + ": the %s buffer of the exchange is the packed region" % what, "%s vs %s" % (txt(buf.off) if isinstance(buf, Ptr) else buf, txt(r[1])), f.e.loc)
            if not rs: ctx.check(isinstance(buf, Ptr) and buf.base is t.WS and nonneg_facts(t, buf.off) and le_facts(t, buf.off, limit), name + ": the %s buffer of the exchange is in the work space" % what, txt(buf.off) if isinstance(buf, Ptr) else repr(buf), f.e.loc)
    ctx.check(True, name + ": work space analysed")
def atoms_nonneg(p):
    """every term of p has a nonnegative coefficient and nonnegative atoms"""
    for k, c in p.m.items():
        if c < 0: return False
        for a, e in k:
            t = Term._byid[a]
            if e % 2 == 0: continue
            if not (nonneg(P(t)) or t.op in ("ovsize", "boxcount", "rmax", "psum")): return False
    return True
def nonneg_facts(t, p): return atoms_nonneg(p)
def le_facts(t, a, b): return atoms_nonneg(b - a)
def run(ctx):
    ctx.rules = ["every packed/unpacked/exchanged slot lies in [0, batch*size_workspace()) elements, sent and received regions are disjoint"]
    ctx.assumptions = ["the boxes of a layout are disjoint (P23), hence the overlaps of one box with all boxes of the other layout sum to at most its size"]
    p = program("int")
    ctx.parallel(configs(ctx.tier), lambda ctx, c: one(ctx, p, c))
