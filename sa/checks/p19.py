"""P19: MPI datatypes."""
from reshape import *
TITLE = "Messages use the MPI datatype of the transferred element type"
TECHNIQUE = "value-flow analysis: datatype handle of every MPI communication compared with the element type of its buffer"

DT = {"ompi_mpi_float": ("float",), "ompi_mpi_double": ("double",), "ompi_mpi_int": ("int",), "ompi_mpi_byte": ("byte",), "ompi_mpi_c_float_complex": ("std::complex<float>",), "ompi_mpi_c_complex": ("std::complex<float>",),
      "ompi_mpi_cxx_cplex": ("std::complex<float>",), "ompi_mpi_cplex": ("std::complex<float>",), "ompi_mpi_dblcplex": ("std::complex<double>",), "ompi_mpi_cxx_dblcplex": ("std::complex<double>",), "ompi_mpi_c_double_complex": ("std::complex<double>",), "ompi_mpi_char": ("byte",), "ompi_mpi_long_long_int": ("long long",)}
SZ = {"float": 4, "double": 8, "int": 4, "byte": 1, "std::complex<float>": 8, "std::complex<double>": 16, "long long": 8}
# (buffer, count, datatype) argument positions
SIG = {"MPI_Alltoall": ((0, 1, 2), (3, 4, 5)), "MPI_Alltoallv": ((0, 1, 3), (4, 5, 7)), "MPI_Irecv": ((0, 1, 2),), "MPI_Recv": ((0, 1, 2),), "MPI_Isend": ((0, 1, 2),), "MPI_Send": ((0, 1, 2),), "MPI_Issend": ((0, 1, 2),), "MPI_Ssend": ((0, 1, 2),),
       "MPI_Allgather": ((0, 1, 2), (3, 4, 5)), "MPI_Allgatherv": ((0, 1, 2), (3, 4, 6)), "MPI_Bcast": ((0, 1, 2),), "MPI_Allreduce": ((0, 2, 3), (1, 2, 3)), "MPI_Gather": ((0, 1, 2), (3, 4, 5)), "MPI_Sendrecv": ((0, 1, 2), (5, 6, 7))}
def dtname(v):
    if not isinstance(v, Ptr): return None
    s = show(v.base)
    return s[7:-1] if s.startswith("global(") else s
def one(ctx, p, c):
    t = get_trace(p, c); ctx.absorb(t.m); name = cname(c)
    if t.null: ctx.ok(name + ": no messages"); return
    for i, f in enumerate(t.flat):
        if f.e.kind != "call" or f.e.d["q"] not in SIG: continue
        a = f.e.d["args"]
        for k, (b, n, d) in enumerate(SIG[f.e.d["q"]]):
            h = dtname(a[d])
            ctx.check(h in DT and DT[h][0] == c[4], "%s: %s%s transfers %s" % (name, f.e.d["q"], ("" if k == 0 else " (receive)"), c[4]), "the datatype is %s" % h, f.e.loc)
def types(ctx, p):
    fs = fns(p, "heffte::mpi::type_from")
    if len(fs) < 4: raise AnchorMissing("mpi::type_from")
    for f in fs:
        m = machine(p); r = call(m, f); ctx.absorb(m)
        ta = (f.get("ta") or ["?"])[0]
        h = dtname(r)
        if ta not in SZ: ctx.check(False, "type_from<%s> is a known type" % ta, h or repr(r), (f["file"], f["line"])); continue
        ctx.check(h in DT and DT[h][0] == ta, "type_from<%s> is the MPI equivalent" % ta, "returns %s" % (h or r), (f["file"], f["line"]))
def setup(ctx, p):
    """messages of the set-up code: the byte/int counts cover the C++ objects"""
    fs = fns(p, "heffte::mpi::gather_boxes") + [f for f in fns(p, "heffte::rank_remap::set_subranks") if len(f["params"]) == 2 and p.types[f["params"][1]["t"]].get("s", "").find("MPI_Comm") >= 0 or f["n"] == "set_subranks" and any("Comm" in p.types[x["t"]].get("s", "") or "communicator" in p.types[x["t"]].get("s", "") for x in f["params"])]
    for f in fs:
        m = machine(p); call(m, f); ctx.absorb(m)
        k = 0
        for fl in flatten(m.rec):
            if fl.e.kind != "call" or fl.e.d["q"] not in SIG: continue
            k += 1
            d = fl.e.d
            for b, n, dt in SIG[d["q"]]:
                h = dtname(d["args"][dt]); v = d["pointees"][b]
                size = None
                if isinstance(v, Vec):
                    size = P(v.es) * v.size if not hasattr(v.es, "atoms") else v.es * v.size
                elif v is not None: size = P(4)
                cnt = d["args"][n]
                nm = "%s<%s>: %s argument %d" % (f["n"], ",".join(f.get("ta") or []), d["q"], b)
                if h not in DT or not isinstance(cnt, Poly): ctx.check(False, nm + " has a known datatype", "%s %s" % (h, cnt), fl.e.loc); continue
                if d["q"] == "MPI_Allgather" and b == 3:
                    cs = [x for x in flatten(m.rec) if x.e.kind == "call" and x.e.d["q"] == "MPI_Comm_size"]
                    np_ = P(T("sym", "?"))
                    for g in deps(size):
                        if show(g).startswith("out:MPI_Comm_size"): np_ = P(g)
                    ctx.check(size is cnt * SZ[DT[h][0]] * np_, nm + " receives exactly one contribution per rank", "%s bytes for %s x %s" % (show(size), show(cnt), h), fl.e.loc)
                else: ctx.check(size is not None and size is cnt * SZ[DT[h][0]], nm + " sends the whole object", "%s bytes for %s x %s" % (size and show(size), show(cnt), h), fl.e.loc)
        if k == 0: raise AnchorMissing("communication in " + f["q"])
def run(ctx):
    ctx.rules = ["the datatype handle of every MPI communication is the one of the element type of its buffer, and mpi::type_from maps each C++ type to its MPI equivalent"]
    p = program("int")
    types(ctx, p); setup(ctx, p)
    ctx.parallel(configs(ctx.tier), lambda ctx, c: one(ctx, p, c))
