"""P18: only matching input, output and work-space types are accepted."""
from harness import *
import extract, subprocess, tempfile, shutil
TITLE = "Only matching input, output and work-space types are accepted"
TECHNIQUE = "compile-fail and compile-pass witnesses: every combination of back end, method and array types is type-checked (clang, syntax only) and the compiler's verdict compared with the documented table"
LEVEL = "proof"
NOTE = "back ends compiled here: stock, FFTW, MKL; tags of other back ends must be rejected in this configuration"
FFT = ("stock", "fftw", "mkl")
R2R = ("stock_cos", "stock_sin", "stock_cos1", "fftw_cos", "fftw_sin", "fftw_cos1", "fftw_sin1", "mkl_cos", "mkl_sin")
OFF = ("cufft", "cufft_cos", "rocfft", "rocfft_cos", "onemkl", "onemkl_sin")
# spelling -> (precision, is complex); None: not a type any transform accepts
STD = {"float": ("s", 0), "double": ("d", 0), "std::complex<float>": ("s", 1), "std::complex<double>": ("d", 1)}
OTHER = {"int": None, "long double": None, "std::complex<long double>": None, "std::complex<int>": None}
NATIVE = {"stock": {"heffte::stock::Complex<float, 1>": ("s", 1), "heffte::stock::Complex<double, 1>": ("d", 1)}, "fftw": {"fftwf_complex": ("s", 1), "fftw_complex": ("d", 1)}, "mkl": {"float _Complex": ("s", 1), "double _Complex": ("d", 1)}}
CUSTOM = {"wit::single_complex": ("s", 1), "wit::double_complex": ("d", 1)}
HEAD = """#include "heffte.h"
#include <complex>
namespace wit { struct single_complex { float re, im; }; struct double_complex { double re, im; };
template<typename T> T *ptr(); template<typename T> T &ref(); }
namespace heffte { template<> struct is_ccomplex<wit::single_complex> : std::true_type{}; template<> struct is_zcomplex<wit::double_complex> : std::true_type{}; }
"""
def fits(a, b, mode):
    """documented table for (real side, spectral side)"""
    if a is None or b is None or a[0] != b[0]: return False
    if mode == "c2c": return b[1] == 1
    if mode == "r2c": return a[1] == 0 and b[1] == 1
    return a[1] == 0 and b[1] == 0
class W:
    __slots__ = ("name", "code", "good", "line")
    def __init__(s, name, code, good): s.name, s.code, s.good = name, code, good
def same(b): return {"s": "float", "d": "double"}[b[0]] if not b[1] else "std::complex<%s>" % {"s": "float", "d": "double"}[b[0]]
def witnesses(bk, mode):
    """mode c2c: fft3d of an FFT back end; r2c: fft3d_r2c; r2r: fft3d of a sine/cosine tag"""
    cls = "heffte::fft3d_r2c" if mode == "r2c" else "heffte::fft3d"; pl = "wit::ref<%s<heffte::backend::%s> const>()" % (cls, bk)
    short = "%s<%s>" % (cls.replace("heffte::", ""), bk)
    ty = dict(STD); ty.update(OTHER)
    base = bk.split("_")[0]
    if mode != "r2r": ty.update(NATIVE.get(base, {})); ty.update(CUSTOM)
    out = []
    names = list(ty)
    for d in ("forward", "backward"):
        for a in names:
            for b in names:
                ok = fits(ty[a], ty[b], mode) if d == "forward" else fits(ty[b], ty[a], mode)
                w = b if d == "forward" else a          # the work space has the type of the spectral side
                for bt in ("", "5, "):
                    for sc in ("", ", heffte::scale::full"):
                        if sc and not ok: continue
                        out.append(W("%s::%s(%s%s -> %s%s)" % (short, d, "batch, " if bt else "", a, b, ", scale" if sc else ""), "%s.%s(%swit::ptr<%s const>(), wit::ptr<%s>()%s);" % (pl, d, bt, a, b, sc), ok))
                        out.append(W("%s::%s(%s%s -> %s, work %s%s)" % (short, d, "batch, " if bt else "", a, b, w, ", scale" if sc else ""), "%s.%s(%swit::ptr<%s const>(), wit::ptr<%s>(), wit::ptr<%s>()%s);" % (pl, d, bt, a, b, w, sc), ok))
                    if ok:
                        for v in names:
                            if v != w and (ty[v] is None or ty[v] != ty[w]):
                                out.append(W("%s::%s(%s%s -> %s, work %s)" % (short, d, "batch, " if bt else "", a, b, v), "%s.%s(%swit::ptr<%s const>(), wit::ptr<%s>(), wit::ptr<%s>());" % (pl, d, bt, a, b, v), False))
    # containers: the result type follows from the argument
    v = "std::vector<%s>"; npl = pl.replace(" const>()", ">()")
    for a in list(STD) + list(OTHER):
        t = ty[a]
        for d in ("forward", "backward", "backward_real"):
            if d == "backward_real" and mode == "r2c": continue
            if t is None: ok = False; res = "float"
            elif mode == "r2r": ok = t[1] == 0; res = a
            elif d == "forward": ok = mode == "c2c" or t[1] == 0; res = same((t[0], 1))
            elif d == "backward": ok = t[1] == 1; res = same((t[0], 1 if mode == "c2c" else 0))
            else: ok = t[1] == 1; res = same((t[0], 0))
            for sc in ("", ", heffte::scale::full") if ok else ("",):
                e = "%s.%s(wit::ref<%s const>()%s)" % (npl, d, v % a, sc)
                out.append(W("%s::%s(vector<%s>%s)%s" % (short, d, a, ", scale" if sc else "", " gives vector<%s>" % res if ok else ""), ("%s; static_assert(std::is_same<decltype(%s), %s>::value, \"result\");" % (e, e, v % res)) if ok else e + ";", ok))
    # making plans
    for ix in ("int", "long long", "short", "unsigned", "long"):
        bx = "wit::ref<heffte::box3d<%s> const>()" % ix
        good = ix in ("int", "long long")
        if ix == "long": continue
        if mode == "r2c": e = "heffte::make_fft3d_r2c<heffte::backend::%s>(%s, %s, 1, MPI_COMM_WORLD);" % (bk, bx, bx)
        else: e = "heffte::make_fft3d<heffte::backend::%s>(%s, %s, MPI_COMM_WORLD);" % (bk, bx, bx)
        out.append(W("make_%s with %s indexes" % (short, ix), e, good))
        if good:
            i = ("1, " if mode == "r2c" else "")
            for op in ("", ", heffte::default_options<heffte::backend::%s>()" % bk, ", heffte::plan_options(true, heffte::reshape_algorithm::p2p, true)"):
                out.append(W("%s(box3d<%s>%s)" % (short, ix, ", options" if op else ""), "%s<heffte::backend::%s, %s> plan(%s, %s, %sMPI_COMM_WORLD%s);" % (cls, bk, ix, bx, bx, i, op), True))
    return out
def disabled():
    out = []
    for bk in OFF:
        bx = "wit::ref<heffte::box3d<int> const>()"
        out.append(W("fft3d<%s> (not enabled)" % bk, "heffte::fft3d<heffte::backend::%s> plan(%s, %s, MPI_COMM_WORLD);" % (bk, bx, bx), False))
        out.append(W("make_fft3d<%s> (not enabled)" % bk, "heffte::make_fft3d<heffte::backend::%s>(%s, %s, MPI_COMM_WORLD);" % (bk, bx, bx), False))
        out.append(W("fft3d_r2c<%s> (not enabled)" % bk, "heffte::fft3d_r2c<heffte::backend::%s> plan(%s, %s, 0, MPI_COMM_WORLD);" % (bk, bx, bx), False))
    for bk in R2R:
        bx = "wit::ref<heffte::box3d<int> const>()"
        out.append(W("fft3d_r2c<%s> (sine and cosine transforms have no real-to-complex form)" % bk, "heffte::fft3d_r2c<heffte::backend::%s> plan(%s, %s, 0, MPI_COMM_WORLD);" % (bk, bx, bx), False))
    # boxes of different index types do not combine
    for a, b in (("int", "long long"), ("long long", "int")):
        out.append(W("make_fft3d with %s and %s boxes" % (a, b), "heffte::make_fft3d<heffte::backend::stock>(wit::ref<heffte::box3d<%s> const>(), wit::ref<heffte::box3d<%s> const>(), MPI_COMM_WORLD);" % (a, b), False))
    return out
def compile_(scratch, name, ws):
    src = os.path.join(scratch, name + ".cpp")
    with open(src, "w") as f:
        f.write(HEAD); n = HEAD.count("\n") + 1
        for w in ws: f.write("void w%d(){ %s }\n" % (n, w.code)); w.line = n; n += 1
    cmd = ["clang++"] + extract.flags(scratch, extract.BASE_DEFS) + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics", "-fno-diagnostics-fixit-info", "-fno-color-diagnostics", src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    bad = {}; cur = None
    for l in r.stderr.split("\n"):
        m = re.match(r"(.*?):(\d+):\d+: (fatal error|error|note): (.*)$", l)
        if not m: continue
        if m.group(3) != "note": cur = (m.group(1), int(m.group(2)), m.group(4))
        if cur and m.group(1) == src: bad.setdefault(int(m.group(2)), cur)
    if "fatal error" in r.stderr or (r.returncode != 0 and not bad): raise extract.ExtractError("the witnesses cannot be compiled:\n" + r.stderr[-2000:])
    return bad
def one(ctx, it):
    tag, ws = it
    scratch = tempfile.mkdtemp(prefix="heffte_sa_")
    try:
        # the headers themselves
        if compile_(scratch, "head", []): raise extract.ExtractError("headers do not compile")
        bad = compile_(scratch, tag, ws)
        doubt = [w for w in ws if (w.line in bad) == w.good]
        lines = {id(w): bad.get(w.line) for w in doubt}
        while doubt:                            # a specialization shared by several witnesses is reported once
            bad = compile_(scratch, tag + "1", doubt); rest = [w for w in doubt if (w.line in bad) == w.good]
            for w in doubt: lines[id(w)] = bad.get(w.line)
            if len(rest) == len(doubt): break
            doubt = rest
        for w in doubt[:40]:                    # each on its own: instantiations are not shared with other witnesses
            b = compile_(scratch, tag + "1", [w]); lines[id(w)] = next(iter(b.values()), None)
        for w in ws:
            if id(w) not in lines: ctx.ok(w.name); continue
            e = lines[id(w)]
            if w.good: ctx.check(e is None, w.name + ": accepted", "%s:%d: %s" % e if e else "", e[:2] if e else None)
            else: ctx.check(e is not None, w.name + ": rejected", "compiles", (os.path.join(REPO, "include/heffte_fft3d%s.h" % ("_r2c" if "r2c" in w.name else "")), 0))
    finally: shutil.rmtree(scratch, ignore_errors=True)
def run(ctx):
    ctx.rules = ["forward (real side, spectral side): equal precision; complex spectral side for FFT back ends, real real side for fft3d_r2c, both real for sine and cosine; backward mirrored; the work space has the spectral side's type", "tags that are not enabled, fft3d_r2c of sine/cosine tags and other index types are rejected"]
    ctx.assumptions = ["clang and the build's compiler agree on well-formedness"]
    its = []
    for bk in FFT: its += [("c2c_" + bk, witnesses(bk, "c2c")), ("r2c_" + bk, witnesses(bk, "r2c"))]
    for bk in R2R: its.append(("r2r_" + bk, witnesses(bk, "r2r")))
    its.append(("off", disabled()))
    ctx.notes.append("%d witnesses, %d of them must compile" % (sum(len(w) for _, w in its), sum(x.good for _, w in its for x in w)))
    ctx.parallel(its, one)
