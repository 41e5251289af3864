"""Builds /repo's sources (working tree) and the harnesses, in variants, into /verif/build.

Objects are cached by a hash of flags + source + every header, so a change anywhere
in /repo or in the harness leads to a rebuild of exactly what it can affect.
"""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
ENV = dict(os.environ, OMPI_CC="gcc", OMPI_CXX="g++", LC_ALL="C.UTF-8", HOME=os.environ.get("HOME", "/root"))

VARIANTS = {
    # same optimisation level and compiler as the project's own build
    "opt": ["-O2", "-g1", "-fopenmp"],
    "san": ["-O1", "-g", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute,pointer-overflow",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}
INC = ["src", "levels/c_utils", "levels/libfftpack", "levels/cxxsupport", "levels/Healpix_cxx"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)


def lib_sources():
    """Every translation unit under src/ and levels/ that belongs to the library:
    not a program (defines main), not included textually by another source."""
    files = []
    for d in INC:
        for ext in ("*.c", "*.cc", "*.cpp", "*.cxx"):
            files += glob.glob(os.path.join(REPO, d, ext))
    texts = {f: open(f, encoding="utf-8", errors="replace").read() for f in files}
    included = set()
    def program(f):
        return os.path.basename(f).startswith("test_") or re.search(r'^\s*int\s+main\s*\(', texts[f], re.M)

    for f, t in texts.items():
        if program(f):
            continue
        included.update(os.path.basename(x) for x in re.findall(r'^\s*#\s*include\s*"([^"]+)"', t, re.M))
    out = []
    am = {}
    for f in sorted(files):
        b, d = os.path.basename(f), os.path.dirname(f)
        if d not in am:
            m = os.path.join(d, "Makefile.am")
            am[d] = set(re.findall(r"[\w.+-]+", open(m).read())) if os.path.exists(m) else None
        if am[d] is not None and b not in am[d]:
            continue  # not part of the project's build (levels/c_utils/parser.c does not compile)
        if b in included or program(f):
            continue
        out.append(f)
    return out


def headers_hash():
    h = hashlib.sha256()
    files = []
    for d in INC:
        for f in glob.glob(os.path.join(REPO, d, "*")):
            if not f.endswith((".cc", ".cpp", ".am", ".in", ".o")) and os.path.isfile(f):
                files.append(f)
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_all(variant, harnesses, log=print):
    """Builds the library objects of a variant and the named harnesses (list of (name, mpi)). Returns {name: path}."""
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    flags = VARIANTS[variant]
    incs = ["-I" + os.path.join(REPO, x) for x in INC]
    hh = headers_hash()
    vh = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp"))):
        vh.update(open(f, "rb").read())
    vh = vh.hexdigest()
    jobs = []

    def job(src, extra, salt):
        cxx = not src.endswith(".c")
        std = ["-std=c++17"] if extra else []
        cmd = ["mpicxx" if cxx else "mpicc"] + flags + std + ["-DUSE_MPI", "-w"] + extra + incs
        key = hashlib.sha256()
        key.update(repr(cmd).encode()); key.update(salt.encode()); key.update(open(src, "rb").read())
        obj = os.path.join(d, os.path.basename(src).replace(".", "_") + "-" + key.hexdigest()[:20] + ".o")
        jobs.append((cmd + ["-c", src, "-o", obj + ".tmp"], obj))
        return obj

    libobjs = [job(s, [], hh) for s in lib_sources()]
    hobjs = {}
    for name, mpi in harnesses:
        src = os.path.join(VERIF, "harness", name + ".cpp")
        hobjs[name] = job(src, ["-DVP_MPI"] if mpi else ["-DVP_SERIAL"], hh + vh)

    def run(j):
        cmd, obj = j
        if os.path.exists(obj):
            return None
        r = sh(cmd)
        if r.returncode:
            return " ".join(cmd) + "\n" + r.stdout[-6000:]
        os.replace(obj + ".tmp", obj)
        return None

    with ThreadPoolExecutor(8) as ex:
        # harnesses first: they are the slowest to compile
        for err in ex.map(run, jobs[::-1]):
            if err:
                raise BuildError(err)
    lib = os.path.join(d, "libvp-" + hashlib.sha256("".join(libobjs).encode()).hexdigest()[:20] + ".a")
    if not os.path.exists(lib):
        r = sh(["ar", "rcs", lib + ".tmp"] + libobjs)
        if r.returncode:
            raise BuildError(r.stdout)
        os.replace(lib + ".tmp", lib)
    bins = {}
    for name, obj in hobjs.items():
        b = os.path.join(d, name + "-" + hashlib.sha256((obj + lib).encode()).hexdigest()[:20])
        if not os.path.exists(b):
            r = sh(["mpicxx"] + flags + [obj, lib, "-lcfitsio", "-lquadmath", "-lm", "-o", b + ".tmp"])
            if r.returncode:
                raise BuildError(r.stdout[-6000:])
            os.replace(b + ".tmp", b)
        bins[name] = b
    return bins


def shared_lib(variant="opt"):
    """libconviqt.so of the working tree (for the Python wrapper)."""
    d = os.path.join(BUILD, variant + "-pic")
    os.makedirs(d, exist_ok=True)
    flags = VARIANTS[variant] + ["-fPIC"]
    incs = ["-I" + os.path.join(REPO, x) for x in INC]
    hh = headers_hash()
    objs, jobs = [], []
    for src in lib_sources():
        cmd = ["mpicc" if src.endswith(".c") else "mpicxx"] + flags + ["-DUSE_MPI", "-w"] + incs
        key = hashlib.sha256((repr(cmd) + hh).encode() + open(src, "rb").read()).hexdigest()[:20]
        obj = os.path.join(d, os.path.basename(src).replace(".", "_") + "-" + key + ".o")
        objs.append(obj)
        jobs.append((cmd + ["-c", src, "-o", obj + ".tmp"], obj))

    def run(j):
        cmd, obj = j
        if os.path.exists(obj):
            return None
        r = sh(cmd)
        if r.returncode:
            return r.stdout[-6000:]
        os.replace(obj + ".tmp", obj)

    with ThreadPoolExecutor(8) as ex:
        for err in ex.map(run, jobs):
            if err:
                raise BuildError(err)
    so = os.path.join(d, hashlib.sha256("".join(objs).encode()).hexdigest()[:20])
    os.makedirs(so, exist_ok=True)
    lib = os.path.join(so, "_conviqt.so")
    if not os.path.exists(lib):
        r = sh(["mpicxx", "-shared"] + flags + objs + ["-lcfitsio", "-lm", "-o", lib + ".tmp"])
        if r.returncode:
            raise BuildError(r.stdout)
        os.replace(lib + ".tmp", lib)
    return lib
