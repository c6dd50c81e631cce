"""Runs the extractor on /repo's current sources (scratch config header, no use of /repo/_build)."""
import os, re, subprocess, sys, hashlib, shutil, tempfile, fcntl, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HEFFTE_REPO", "/repo")
HX = os.path.join(VERIF, "tools/hx/hx")

class ExtractError(Exception):
    pass

def build_hx():
    lock = open(os.path.join(tempfile.gettempdir(), "hx_build.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        r = subprocess.run(["bash", os.path.join(VERIF, "tools/hx/build.sh")], capture_output=True, text=True)
        if r.returncode != 0:
            raise ExtractError("cannot build the extractor:\n" + r.stdout + r.stderr)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()

def config_header(path, defs):
    src = open(os.path.join(REPO, "include/heffte_config.cmake.h")).read()
    def cm(m):
        n = m.group(1)
        return "#define " + n if n in defs else "/* #undef %s */" % n
    src = re.sub(r"#cmakedefine\s+(\w+)", cm, src)
    ver = {"Heffte_VERSION_MAJOR": "2", "Heffte_VERSION_MINOR": "4", "Heffte_VERSION_PATCH": "1"}
    src = re.sub(r"@(\w+)@", lambda m: ver.get(m.group(1), "0"), src)
    with open(path, "w") as f: f.write(src)

def mpi_includes():
    for d in ("/usr/lib/x86_64-linux-gnu/openmpi/include",):
        if os.path.exists(os.path.join(d, "mpi.h")): return ["-isystem", d, "-isystem", os.path.join(d, "openmpi")]
    r = subprocess.run(["mpicxx", "--showme:compile"], capture_output=True, text=True)
    return r.stdout.split()

BASE_DEFS = ("Heffte_ENABLE_FFTW", "Heffte_ENABLE_MKL", "Heffte_ENABLE_AVX")

def tree_hash():
    h = hashlib.sha256()
    for root in ("include", "src"):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for p in (os.path.join(VERIF, "tools/hx/hx.cpp"), os.path.abspath(__file__)):
        h.update(open(p, "rb").read())
    return h

def flags(scratch, defs, extra=()):
    config_header(os.path.join(scratch, "heffte_config.h"), defs)
    a = ["-std=gnu++17", "-fsyntax-only", "-w", "-mfma", "-mavx2", "-I" + scratch, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    if os.path.isdir("/usr/include/mkl"): a += ["-isystem", "/usr/include/mkl"]
    return a + mpi_includes() + list(extra)

def extract(source, name, defs=BASE_DEFS, extra=()):
    """returns the path of a JSON-lines dump for one translation unit"""
    build_hx()
    src = source if os.path.isabs(source) else os.path.join(REPO, source)
    if not os.path.exists(src): raise ExtractError("missing source " + src)
    h = tree_hash(); h.update(open(src, "rb").read()); h.update(repr((name, sorted(defs), tuple(extra))).encode())
    cache = os.path.join(tempfile.gettempdir(), "heffte_sa_cache")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, name + "-" + h.hexdigest()[:24] + ".jsonl")
    if os.path.exists(out): return out
    scratch = tempfile.mkdtemp(prefix="heffte_sa_")
    try:
        tmp = out + ".tmp%d" % os.getpid()
        cmd = [HX, tmp, src, ",".join([REPO + "/include", REPO + "/src", REPO + "/fortran", VERIF + "/drivers"]), "--"] + flags(scratch, defs, extra)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise ExtractError("the analysed tree does not parse (%s):\n%s" % (source, (r.stdout + r.stderr)[-3000:]))
        for f in os.listdir(cache):
            try:
                if f.startswith(name + "-") and time.time() - os.path.getmtime(os.path.join(cache, f)) > 6 * 3600: os.unlink(os.path.join(cache, f))
            except FileNotFoundError: pass   # another check cleaned it up
        os.rename(tmp, out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out

def main_unit(index="int", defs=BASE_DEFS):
    return extract(os.path.join(VERIF, "drivers/main.cpp"), "main_" + index.replace(" ", "_"), defs, ["-DVDRV_INDEX=" + index])

if __name__ == "__main__":
    t = time.time(); p = main_unit(*(sys.argv[1:] or ["int"])); print(p, os.path.getsize(p), time.time() - t)
