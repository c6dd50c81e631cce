"""P03: messages of the redistributions."""
from reshape import *
TITLE = "Message counts, displacements and buffer slots agree for any batch"
TECHNIQUE = "value-flow analysis: packed slots, MPI counts/displacements and unpacked slots as polynomials in batch, compared symbolically"

def txt(x): return show(x) if isinstance(x, (Poly, BD, Term)) else repr(x)
def eqp(g, a, b):
    """equal under the guard"""
    if not isinstance(a, Poly) or not isinstance(b, Poly): return False
    pos, _ = bd_literals(g)
    mp = {}
    for l in pos:
        if l.op == "eq":
            for k, c in l.args[0].m.items():
                if len(k) == 1 and k[0][1] == 1 and c in (1, -1) and Term._byid[k[0][0]].op == "sym":
                    y = Term._byid[k[0][0]]; v = (P(y) * c - l.args[0]) * c
                    if y not in deps(v) and y not in mp: mp[y] = v
    a = subst(dropnull(under(g, a)), mp); b = subst(dropnull(under(g, b)), mp)
    return same(a, b) or eq0(a - b) is TRUE or alpha(a - b) is ZERO

def collective(ctx, t, name, ps):
    """MPI_Alltoall and MPI_Alltoallv"""
    G = P(T("size", T("sym", "group"))) + 1
    v = t.which == "alltoallv"
    cs = calls(t, "MPI_Alltoallv" if v else "MPI_Alltoall")
    loc = (t.apply["file"], t.apply["line"])
    total = bor(*[f.g for _, f in cs]) if cs else FALSE
    excl = all(band(a[1].g, b[1].g) is FALSE for a, b in itertools.combinations(cs, 2))
    if not ctx.check(cs and total is TRUE and excl and not any(f.loops for _, f in cs), name + ": exactly one exchange per redistribution", "exchanges when %s" % [show(f.g) for _, f in cs], loc): return
    for i, f in cs:
        d = f.e.d; a = d["args"]; pt = d["pointees"]
        if v: sb, sc, sd, st, rb, rc, rd, rt, comm = a
        else: sb, sc, st, rb, rc, rt, comm = a
        for op, buf, cnt, dsp, want_pos in (("pack", sb, 1, 2, "before"), ("unpack", rb, 5, 6, "after")):
            xs = [x for x in ps if x.op == op]
            nm = name + " when %s: %s" % (show(f.g), op) if f.g is not TRUE else name + ": " + op
            S = sides(t)[0 if op == "pack" else 1]
            if v:
                C = pt[cnt]; D = pt[dsp]
                if not ctx.check(isinstance(C, Vec) and isinstance(D, Vec) and same_count(under(f.g, C.size), G) and same_count(under(f.g, D.size), G), nm + " counts and displacements have one entry per member of the group", "%r / %r" % (C, D), f.e.loc): continue
                k = fresh_index("k"); m = t.m
                m.facts = m.facts + [P(k), G - 1 - P(k)]
                q = P(T("idx", T("sym", "group"), P(k)))
                ne = isin(S, q)
                g1 = band(f.g, ne, ge0(G - 1 - P(k))); g0 = band(f.g, bnot(ne), ge0(G - 1 - P(k)))
                ck = vec_get(C, P(k)); dk = vec_get(D, P(k)); dk1 = vec_get(D, P(k) + 1); d0 = vec_get(D, ZERO)
                if not all(isinstance(z, Poly) for z in (ck, dk, dk1, d0)):
                    ctx.check(False, nm + " counts and displacements are numbers", "%r %r" % (ck, dk), f.e.loc); continue
                if not t.L.nonempty(S): ctx.check(eqp(band(f.g, ge0(G - 1 - P(k))), ck, ZERO), nm + ": nothing is exchanged without an overlap", "count %s" % txt(under(f.g, ck)), f.e.loc)
                else: ctx.check(eqp(g0, ck, ZERO), nm + ": the count of a rank without overlap is zero", "count %s" % txt(under(g0, ck)), f.e.loc)
            for x in xs:
                cntv = peer_count(t, x)
                sl = slot_base(t, x)
                ctx.check((x.pos < i) == (op == "pack") and x.pos != i, nm + " happens %s the exchange" % want_pos, "", x.loc)
                if not ctx.check(sl is not None and isinstance(buf, Ptr) and x.msg.base is buf.base and buf.off is not None, nm + " uses the exchanged buffer", "%s vs %s" % (x.msg, buf), x.loc): continue
                base, stride = sl
                g = band(f.g, x.fl.g)
                rel = base - dropnull(under(g, buf.off))
                ctx.check(eqp(g, stride, cntv * t.es), nm + ": batch entries are adjacent inside a message", "stride %s instead of %s" % (txt(under(g, stride)), txt(cntv * t.es)) if v else "stride %s" % txt(stride), x.loc) if v else \
                    ctx.check(batch_uniform(t, stride), nm + ": batch entries have the same distance for sender and receiver", "stride %s" % txt(stride), x.loc)
                kk = group_member(x.v)
                if kk is None: continue
                if v:
                    nn = kk.atom_term()
                    raw = subst(dropnull(x.msg.off), {x.j.atom_term(): ZERO})
                    inc = subst(raw, {nn: kk + 1}) - raw
                    ctx.check(nn is not None and eqp(f.g, inc, cntv * P(t.batch) * t.es * bd_poly(x.fl.g)), nm + ": the slots of different messages do not overlap", "distance %s" % txt(inc), x.loc)
                    mp = {k: kk}
                    g2 = band(g, ge0(G - 1 - kk), ge0(kk))
                    ctx.check(eqp(g2, subst(ck, mp), P(t.batch) * cntv), nm + ": the count is the size of the message", "count %s, message %s" % (txt(under(g2, subst(ck, mp))), txt(P(t.batch) * cntv)), f.e.loc)
                    ctx.check(eqp(g2, subst(dk, mp) * t.es, rel), nm + ": the message is at the displacement given to MPI", "displacement %s, slot %s" % (txt(under(g2, subst(dk, mp))), txt(rel)), x.loc)
                else:
                    c = sc if op == "pack" else rc
                    ctx.check(isinstance(c, Poly) and eqp(g, c * t.es * kk, rel), nm + ": the message of member k is at k * count", "slot %s, count %s" % (txt(rel), txt(c)), x.loc)
                    ctx.check(isinstance(c, Poly) and eqp(g, c, exact(stride, t.es) * P(t.batch)), nm + ": the count covers all batch entries", "count %s, entry %s" % (txt(c), txt(stride)), f.e.loc)
                    ctx.check(covers_overlaps(t, exact(stride, t.es)), nm + ": the entry size covers every overlap of the group", "entry size %s" % txt(stride), x.loc)
        if not v:
            ctx.check(sc is rc, name + ": same count sent and received", "%s / %s" % (txt(sc), txt(rc)), f.e.loc)
            ctx.check(t.L.me not in deps(sc) and t.L.me not in deps(rc), name + ": the count is the same on all ranks of the group", txt(sc), f.e.loc)
        ctx.check(made_from_group(t, comm), name + ": exchange on the communicator of the group", txt(comm), f.e.loc)
def exact(p, c): return p.div_const(c) if isinstance(c, int) else exact_div(p, P(c))
def batch_uniform(t, st): return t.L.batch_free(st) if hasattr(t.L, "batch_free") else t.batch not in deps(st) and t.L.me not in deps(st)
def covers_overlaps(t, E):
    """E >= overlap of every ordered pair of members"""
    G = P(T("size", T("sym", "group"))) + 1
    a = fresh_index("a"); b = fresh_index("b")
    ga = P(T("idx", T("sym", "group"), P(a))); gb = P(T("idx", T("sym", "group"), P(b)))
    pair = pair_terms(T("idx", T("sym", "INB"), ga), T("idx", T("sym", "OUTB"), gb))
    full = P(T("ovsize", ZERO, *pair)) * P(T("ovsize", ONE, *pair)) * P(T("ovsize", P(2), *pair))
    want = [full, full * bd_poly(bnot(batom(T("ovempty", *pair))))]
    def body(x, free):
        at = x.atom_term() if isinstance(x, Poly) else None
        if at is not None and at.op == "rmax":
            if at.args[2] is not G or not nonneg(P(at.args[3])): return False
            n = free[0] if free else None
            if not free: return False
            for v in free:
                if body(subst(at.args[1], {at.args[0]: P(v)}), [z for z in free if z is not v]): return True
            return False
        return any(same(x, w) for w in want)
    return body(E, [a, b])
def made_from_group(t, comm):
    if not isinstance(comm, Ptr): return False
    return show(comm.base).startswith("out:MPI_Comm_create#")

def p2p(ctx, t, name, ps):
    loc = (t.apply["file"], t.apply["line"])
    Si, So = sides(t)
    case = t.case
    recvs = calls(t, "MPI_Irecv", "MPI_Recv"); sends = calls(t, "MPI_Isend", "MPI_Send")
    un = [x for x in ps if x.op == "unpack" and x.v is not t.me]; pk = [x for x in ps if x.op == "pack" and x.v is not t.me]
    for what, cs, S, flag, xs in (("receive", recvs, So, "recv", un), ("send", sends, Si, "send", pk)):
        N = (npeers(S) - 1 if case["selfcomm"] else npeers(S)) if case["selfcomm"] or case[flag] else ZERO
        if N is ZERO:
            ctx.check(not cs, name + ": no %s without an overlap" % what, "", loc); continue
        if not ctx.check(len(cs) == 1 and len(cs[0][1].loops) == 1 and same_count(cs[0][1].loops[0][1], N) and cs[0][1].g is TRUE,
                         name + ": exactly one %s per peer" % what, "%s" % [(c[1].e.d["q"], [(show(n), show(M)) for n, M in c[1].loops], show(c[1].g)) for c in cs], cs[0][1].e.loc if cs else loc): continue
        i, f = cs[0]; n = f.loops[0][0]; d = f.e.d; a = d["args"]
        q = a[3].atom_term() if isinstance(a[3], Poly) else None
        if not ctx.check(q is not None and q.op == "peer" and q.args[0] is S and (q.args[1] is P(n) or q.args[1] is N - 1 - P(n)), name + ": each %s is for a different peer" % what, txt(a[3]), f.e.loc): continue
        ctx.check(isinstance(a[4], Poly) and a[4].is_const and a[5] is t.L.comm or isinstance(a[5], Ptr) and a[5].base is t.L.comm.base, name + ": constant tag and the plan's communicator for every %s" % what, "tag %s comm %s" % (txt(a[4]), txt(a[5])), f.e.loc)
        for x in xs:
            # rename the peer position of the pack/unpack to that of the message
            xi = x.v.atom_term().args[1]
            sl = slot_base(t, x)
            cntv = peer_count(t, x)
            if sl is None: ctx.check(False, name + ": %s slot of batch entries" % what, repr(x.msg), x.loc); continue
            base, stride = sl
            fi = q.args[1]                       # position as function of n
            ni = P(n) if fi is P(n) else N - 1 - P(n)
            mp = {n: xi if fi is P(n) else N - 1 - xi}
            g = x.fl.g
            ctx.check(eqp(g, stride, cntv * t.es), name + ": batch entries are adjacent inside the message (%s)" % what, "stride %s" % txt(stride), x.loc)
            ctx.check(isinstance(a[0], Ptr) and a[0].base is x.msg.base and eqp(g, subst(a[0].off, mp), base), name + ": the message buffer of the %s is the packed slot" % what, "buffer %s slot %s" % (txt(a[0].off) if isinstance(a[0], Ptr) else a[0], txt(base)), f.e.loc)
            ctx.check(isinstance(a[1], Poly) and eqp(g, subst(a[1], mp), P(t.batch) * cntv), name + ": the count of the %s is the size of the message" % what, "count %s message %s" % (txt(a[1]), txt(P(t.batch) * cntv)), f.e.loc)
            if what == "send":
                shared = [l for l in x.fl.loops if l[0] is n]
                if shared: ctx.check(x.pos < i, name + ": a message is packed before it is sent", "", x.loc)
                else:
                    ctx.check(x.pos < i, name + ": messages are packed before they are sent", "", x.loc)
                    distinct_slots(ctx, t, name, x, base, cntv)
                if d["q"] == "MPI_Isend" and shared: distinct_slots(ctx, t, name, x, base, cntv)
            else:
                ctx.check(i < x.pos, name + ": receives are posted before the data is unpacked", "", x.loc)
                distinct_slots(ctx, t, name, x, base, cntv, posted=True)
    if len(recvs) == 1 and len(sends) == 1:
        ctx.check(recvs[0][1].e.d["args"][4] is sends[0][1].e.d["args"][4], name + ": sends and receives use the same tag", "", sends[0][1].e.loc)
        ctx.check(recvs[0][0] < sends[0][0] or sends[0][1].e.d["q"] == "MPI_Isend", name + ": receives are posted before blocking sends", "", sends[0][1].e.loc)
    # the part that stays on the rank
    sp = [x for x in ps if x.v is t.me and x.op == "pack"]; su = [x for x in ps if x.v is t.me and x.op == "unpack"]
    if len(sp) == 1 and len(su) == 1:
        a, b = slot_base(t, sp[0]), slot_base(t, su[0])
        ok = a and b and sp[0].msg.base is su[0].msg.base and eqp(TRUE, a[0], b[0]) and eqp(TRUE, a[1], b[1]) and sp[0].pos < su[0].pos
        ctx.check(ok, name + ": the rank's own part is unpacked from where it was packed", "%s / %s" % (sp[0].msg, su[0].msg), su[0].loc)
        ctx.check(ok and eqp(TRUE, a[1], peer_count(t, sp[0]) * t.es), name + ": own part batch entries are adjacent", "", su[0].loc)
        if ok and un:
            sl = slot_base(t, un[0])
            xi = un[0].v.atom_term().args[1].atom_term()
            end = subst(sl[0], {xi: npeers(So) - 1}) if xi is not None else None
            ctx.check(end is not None and eqp(TRUE, end, a[0]), name + ": the own part does not overlap received messages", "own %s, end of received %s" % (txt(a[0]), txt(end) if end is not None else "?"), sp[0].loc)
def distinct_slots(ctx, t, name, x, base, cntv, posted=False):
    xi = x.v.atom_term().args[1].atom_term()
    if xi is None: ctx.check(False, name + ": distinct message slots", "", x.loc); return
    k = fresh_index("k")
    b0 = subst(base, {xi: P(k)}); b1 = subst(base, {xi: P(k) + 1}); c = subst(cntv, {xi: P(k)})
    ctx.check(eqp(TRUE, b1 - b0, c * P(t.batch) * t.es), name + ": the slots of different %s messages do not overlap" % ("received" if posted else "sent"), "distance %s, message %s" % (txt(b1 - b0), txt(c * P(t.batch) * t.es)), x.loc)

def one(ctx, p, c):
    t = get_trace(p, c); ctx.absorb(t.m); name = cname(c)
    if t.null: ctx.ok(name + ": no messages"); return
    ps = pks(t)
    if any(x.err for x in ps):
        x = [x for x in ps if x.err][0]
        ctx.check(False, name + ": messages follow the plan", x.err, x.loc); return
    if c[0] == "pointtopoint": p2p(ctx, t, name, ps)
    else: collective(ctx, t, name, ps)

def run(ctx):
    ctx.rules = ["for each peer: packed slot == MPI buffer/displacement, count == batch * overlap size, zero count without overlap, receiver unpacks the slot the data arrives in; sender and receiver use the same overlap",
                 "slots of messages in flight are disjoint; counts of MPI_Alltoall are rank independent and cover every overlap of the group"]
    p = program("int")
    ctx.parallel(configs(ctx.tier), lambda ctx, c: one(ctx, p, c))
