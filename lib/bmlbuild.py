"""Builds lanl/bml from /repo's current working tree in one of several flavours.

Nothing is ever written to /repo.  Objects go to a cache directory whose entries are keyed by a
hash of (compiler command, the .c file, every header of the tree), so an object can only be reused
when nothing it could depend on has changed.
"""
import glob, hashlib, os, re, shutil, subprocess, sys, concurrent.futures as cf

REPO = os.environ.get("BML_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("BML_CACHE", os.path.join(VERIF, ".build"))
PRECS = ["SINGLE_REAL", "DOUBLE_REAL", "SINGLE_COMPLEX", "DOUBLE_COMPLEX"]
NJOBS = min(16, (os.cpu_count() or 4) + 2)

BLASNAMES = ("caxpy cgemm cgetrf cgetri cheevr clacpy cscal daxpy dgemm dgetrf dgetri dlacpy dscal "
             "dsyev dsyevd saxpy sgemm sgetrf sgetri slacpy sscal ssyev ssyevd zaxpy zgemm zgetrf "
             "zgetri zheevr zlacpy zscal").split()
DEFS = (["-DC_%s=%s_" % (n.upper(), n) for n in BLASNAMES] +
        ["-DBML_COMPLEX", "-DBML_SYEVD", "-DBML_USE_POSIX_MEMALIGN", '-DBML_VERSION="2.4.0"',
         "-DGLOBAL_DEBUG=BML_LOG_DEBUG", "-DHAVE_BLAS", "-DHAVE_LAPACK", "-DMALLOC_ALIGNMENT=64",
         '-DPROJECT_VERSION="2.4.0"', "-D_POSIX_C_SOURCE=200112L"])
WARN = ["-w"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def header_hash(roots):
    h = hashlib.sha256()
    files = []
    for r in roots:
        for pat in ("**/*.h", "**/*.inc", "**/*.hh"):
            files += glob.glob(os.path.join(r, pat), recursive=True)
    for f in sorted(set(files)):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def sources(mpi=False):
    """(path, precision-or-None) for every translation unit of the C library, as named by the build files."""
    ci = os.path.join(REPO, "src", "C-interface")
    dirs = [ci] + [os.path.join(ci, d) for d in ("dense", "ellpack", "ellblock", "csr")]
    if mpi:
        dirs.append(os.path.join(ci, "distributed2d"))
    dirs.append(os.path.join(REPO, "src", "internal-blas"))
    out = []
    for d in dirs:
        named = set(re.findall(r"\b(\w+\.c)\b", open(os.path.join(d, "CMakeLists.txt")).read()))
        for f in sorted(glob.glob(os.path.join(d, "*.c"))):
            b = os.path.basename(f)
            if b not in named:
                continue
            if b.endswith("_typed.c") or d.endswith("internal-blas"):
                out += [(f, p) for p in PRECS]
            else:
                out.append((f, None))
    return out


def compile_many(jobs):
    """jobs: list of (cmd, src, obj).  Runs those whose obj is missing."""
    todo = [j for j in jobs if not os.path.exists(j[2])]

    def one(j):
        cmd, src, obj = j
        tmp = obj + ".%d.tmp.o" % os.getpid()
        sh(cmd + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    with cf.ThreadPoolExecutor(NJOBS) as ex:
        for _ in ex.map(one, todo):
            pass
    return len(todo)


def objects(flavour, cc, flags, mpi=False, filt=None, extra_hdr=()):
    """Compile the library; returns the list of object files."""
    hh = header_hash([os.path.join(REPO, "src")] + list(extra_hdr))
    os.makedirs(CACHE, exist_ok=True)
    jobs = []
    for src, prec in sources(mpi):
        if filt and not filt(src):
            continue
        cmd = [cc, "-std=c99"] + WARN + DEFS + flags
        if prec:
            cmd.append("-D" + prec)
        k = hashlib.sha256(("\0".join(cmd) + hh + src).encode() + open(src, "rb").read()).hexdigest()[:24]
        jobs.append((cmd, src, os.path.join(CACHE, "%s-%s.o" % (flavour, k))))
    compile_many(jobs)
    return [j[2] for j in jobs]


def harness_obj(cc, flags, src, hdr_roots=()):
    hh = header_hash([os.path.join(REPO, "src"), os.path.join(VERIF, "harness")] + list(hdr_roots))
    cmd = [cc] + flags
    k = hashlib.sha256(("\0".join(cmd) + hh + src).encode() + open(src, "rb").read()).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    obj = os.path.join(CACHE, "h-%s-%s.o" % (os.path.basename(src).replace(".", "_"), k))
    return (cmd, src, obj)


def link(cc, objs, out, flags):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rsp = out + ".%d.rsp" % os.getpid()
    with open(rsp, "w") as f:
        f.write("\n".join(objs))
    tmp = out + ".%d.tmp" % os.getpid()
    sh([cc, "@" + rsp, "-o", tmp] + flags)
    os.unlink(rsp)
    os.rename(tmp, out)
    return out


WRAPS = ["exit", "abort", "__assert_fail", "malloc", "calloc", "realloc", "free", "posix_memalign",
         "backtrace", "backtrace_symbols", "printf", "vprintf", "puts", "putchar", "rand"]

SEQFLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-ftrivial-auto-var-init=pattern",
            "-fopenmp", "-fno-builtin-printf"]


def build_seq(out=None):
    """Sequential flavour: ASan, pattern-initialised locals, single-threaded stand-in OpenMP runtime."""
    objs = objects("seq", "gcc", SEQFLAGS)
    H = os.path.join(VERIF, "harness")
    cxx = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-I" + os.path.join(REPO, "src/C-interface")]
    jobs = []
    for s in sorted(glob.glob(os.path.join(H, "seq_*.cc"))):
        jobs.append(harness_obj("g++", cxx[1:], s))
    jobs.append(harness_obj("gcc", ["-std=gnu99", "-O1", "-g1", "-w"], os.path.join(H, "omp_single.c")))
    compile_many(jobs)
    hobjs = [j[2] for j in jobs]
    lay = layout_obj()
    key = hashlib.sha256("\n".join(objs + hobjs + [lay]).encode()).hexdigest()[:20]
    out = out or os.path.join(CACHE, "seq-%s" % key)
    if not os.path.exists(out):
        link("g++", objs + hobjs + [lay], out,
             ["-fsanitize=address"] + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lopenblas", "-lm", "-ldl", "-lpthread"])
    return out


OMPFLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fopenmp", "-fno-builtin-printf", "-U_FORTIFY_SOURCE",
            "-D_FORTIFY_SOURCE=0", "-fno-stack-protector"]
OMPWRAPS = ["memcpy", "memmove", "memset"] + [p + f + "_" for p in "sdcz" for f in ("gemm", "axpy", "scal")]


def layout_obj(extra=[]):
    """The layout shim reads the matrix structures; if it no longer compiles, fall back to a stub."""
    H = os.path.join(VERIF, "harness")
    lay = harness_obj("gcc", ["-std=gnu99", "-O1", "-g1", "-w"] + extra + DEFS + ["-I" + os.path.join(REPO, "src/C-interface")], os.path.join(H, "layout.c"))
    try:
        compile_many([lay])
    except BuildError:
        lay = harness_obj("gcc", ["-std=gnu99", "-O1", "-w", "-DLAYOUT_STUB"] + extra, os.path.join(H, "layout.c"))
        compile_many([lay])
    return lay[2]


def build_omp(out=None):
    """OpenMP flavour: memory accesses instrumented, linked against the controlled runtime of omp_explore.cc instead of libgomp."""
    objs = objects("omp", "gcc", OMPFLAGS)
    H = os.path.join(VERIF, "harness")
    fl = ["-std=c++17", "-O2", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector", "-I" + os.path.join(REPO, "src/C-interface")]
    jobs = [harness_obj("g++", fl, os.path.join(H, s)) for s in ("seq_core.cc", "omp_explore.cc", "omp_ops.cc")]
    compile_many(jobs)
    hobjs = [j[2] for j in jobs] + [layout_obj()]
    key = hashlib.sha256("\n".join(objs + hobjs).encode()).hexdigest()[:20]
    out = out or os.path.join(CACHE, "omp-%s" % key)
    if not os.path.exists(out):
        link("g++", objs + hobjs, out, ["-no-pie"] + ["-Wl,--wrap=" + w for w in WRAPS + OMPWRAPS] + ["-lopenblas", "-lm", "-ldl", "-lpthread"])
    return out


MPIFLAGS = ["-O1", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-fopenmp",
            "-fno-builtin-printf", "-DBML_USE_MPI"]


def build_mpi(out=None):
    """MPI flavour: the library against the controlled MPI of mpi_explore.cc; each rank is a separately loaded copy of <out>.so."""
    H = os.path.join(VERIF, "harness")
    inc = "-I" + os.path.join(H, "mpi")
    objs = objects("mpi", "gcc", MPIFLAGS + [inc], mpi=True, extra_hdr=[os.path.join(H, "mpi")])
    fl = ["-std=c++17", "-O1", "-g1", "-w", "-fPIC", inc, "-I" + os.path.join(REPO, "src/C-interface")]
    J = lambda s, extra=[]: harness_obj("g++", fl + extra, os.path.join(H, s))
    omp1 = harness_obj("gcc", ["-std=gnu99", "-O1", "-g1", "-w", "-fPIC"], os.path.join(H, "omp_single.c"))
    core_so, core = J("seq_core.cc", ["-Dmain=unused_main"]), J("seq_core.cc")
    ops, rank, expl, main = J("mpi_ops.cc"), J("mpi_rank.cc"), J("mpi_explore.cc"), J("mpi_main.cc")
    compile_many([omp1, core_so, core, ops, rank, expl, main])
    lay = layout_obj(["-fPIC", "-DBML_USE_MPI", inc])
    so = objs + [core_so[2], ops[2], rank[2], omp1[2], lay]
    ex = objs + [core[2], ops[2], rank[2], expl[2], main[2], omp1[2], lay]
    key = hashlib.sha256("\n".join(so + ex).encode()).hexdigest()[:20]
    out = out or os.path.join(CACHE, "mpi-%s" % key)
    wr = ["-Wl,--wrap=" + w for w in WRAPS]
    libs = ["-lopenblas", "-lm", "-ldl", "-lpthread"]
    if not os.path.exists(out + ".so"):
        link("g++", so, out + ".so", ["-shared", "-fsanitize=address", "-Wl,-Bsymbolic"] + wr + libs)
    if not os.path.exists(out):
        link("g++", ex, out, ["-fsanitize=address", "-rdynamic"] + wr + libs)
    return out


FORTFLAGS = ["-O1", "-g1", "-cpp", "-fno-omit-frame-pointer", "-fsanitize=address", "-fopenmp", "-w", "-ffree-line-length-none", "-finit-integer=-77", "-finit-real=nan"]
FORTTYPES = {"single_real": ("real(C_FLOAT)", "C_FLOAT", "BML_ELEMENT_REAL"), "double_real": ("real(C_DOUBLE)", "C_DOUBLE", "BML_ELEMENT_REAL"),
             "single_complex": ("complex(C_FLOAT_COMPLEX)", "C_FLOAT_COMPLEX", "BML_ELEMENT_COMPLEX"),
             "double_complex": ("complex(C_DOUBLE_COMPLEX)", "C_DOUBLE_COMPLEX", "BML_ELEMENT_COMPLEX")}
FORTWRAPS = ["_gfortran_stop_string", "_gfortran_error_stop_string", "_gfortran_stop_numeric", "_gfortran_error_stop_numeric", "_gfortran_internal_pack", "_gfortran_string_trim"]


def fort_texts():
    """name -> text of every Fortran source: the interface as named by its build file (typed ones instantiated), then the doors."""
    d = os.path.join(REPO, "src", "Fortran-interface")
    named = set(re.findall(r"\b(\w+\.F90)\b", open(os.path.join(d, "CMakeLists.txt")).read()))
    out = {}
    for f in sorted(glob.glob(os.path.join(d, "*.F90"))):
        b = os.path.basename(f)
        if b not in named:
            continue
        t = open(f).read()
        if b.endswith("_typed_m.F90") and "MATRIX_TYPE" in t:
            for p, (rt, rk, rn) in FORTTYPES.items():
                x = t
                for a, v in (("MATRIX_TYPE", p), ("REAL_TYPE", rt), ("REAL_KIND", rk), ("REAL_NAME", rn)):
                    x = x.replace(a, v)
                out[b.replace("typed", p)] = x
        else:
            out[b] = t
    h = os.path.join(VERIF, "harness", "fort")
    out["fort_any.F90"] = open(os.path.join(h, "fort_any.F90")).read()
    t = open(os.path.join(h, "fort_typed.F90.in")).read()
    for s, p in (("sr", "single_real"), ("dr", "double_real"), ("sc", "single_complex"), ("dc", "double_complex")):
        out["fort_%s.F90" % s] = t.replace("SFX", s).replace("TYPE,", FORTTYPES[p][0] + ",")
    return out


def build_fort(out=None):
    """The sequential flavour with the Fortran interface and C-callable doors to it."""
    texts = fort_texts()
    defs = ["-DBML_COMPLEX", "-DHAVE_BLAS", "-DHAVE_LAPACK"]
    key = hashlib.sha256(("\0".join(FORTFLAGS + defs) + "".join(k + "\0" + texts[k] for k in sorted(texts))).encode()).hexdigest()[:20]
    d = os.path.join(CACHE, "fort-%s" % key)
    lib = d + ".o"
    if not os.path.exists(lib):
        tmp = d + ".%d.d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        mods, uses = {}, {}
        for f, t in texts.items():
            open(os.path.join(tmp, f), "w").write(t)
            for m in re.findall(r"(?im)^\s*module\s+(?!procedure\b)(\w+)\s*$", t):
                mods[m.lower()] = f
            uses[f] = {m.lower() for m in re.findall(r"(?im)^\s*use\s*(?:,[^:]*::)?\s*(\w+)", t)}
        done, order = set(), []
        while len(done) < len(texts):
            lvl = [f for f in texts if f not in done and all(mods.get(m, f) == f or mods[m] in done for m in uses[f])]
            if not lvl:
                raise BuildError("circular module use in the Fortran interface")
            with cf.ThreadPoolExecutor(NJOBS) as ex:
                list(ex.map(lambda f: sh(["gfortran"] + FORTFLAGS + defs + ["-c", f, "-o", f + ".o"], cwd=tmp), lvl))
            done.update(lvl); order += lvl
        sh(["ld", "-r", "-o", lib + ".%d" % os.getpid()] + [os.path.join(tmp, f + ".o") for f in order])
        os.rename(lib + ".%d" % os.getpid(), lib)
        shutil.rmtree(tmp)
    objs = objects("seq", "gcc", SEQFLAGS)
    H = os.path.join(VERIF, "harness")
    jobs = [harness_obj("g++", ["-std=c++17", "-O1", "-g1", "-w", "-I" + os.path.join(REPO, "src/C-interface")], os.path.join(H, s)) for s in ("seq_core.cc", "fort/fort_ops.cc")]
    jobs.append(harness_obj("gcc", ["-std=gnu99", "-O1", "-g1", "-w"], os.path.join(H, "omp_single.c")))
    compile_many(jobs)
    allo = objs + [j[2] for j in jobs] + [layout_obj(), lib]
    out = out or os.path.join(CACHE, "fortx-%s" % hashlib.sha256("\n".join(allo).encode()).hexdigest()[:20])
    if not os.path.exists(out):
        link("g++", allo, out, ["-fsanitize=address"] + ["-Wl,--wrap=" + w for w in WRAPS + FORTWRAPS] + ["-lgfortran", "-lopenblas", "-lm", "-ldl", "-lpthread"])
    return out


def prune(keep_bytes=3 << 30):
    try:
        fs = [(os.stat(os.path.join(CACHE, f)).st_mtime, os.stat(os.path.join(CACHE, f)).st_size, os.path.join(CACHE, f))
              for f in os.listdir(CACHE)]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for m, s, f in sorted(fs):
        if tot <= keep_bytes:
            break
        try:
            os.unlink(f); tot -= s
        except OSError:
            pass


if __name__ == "__main__":
    print(globals()["build_" + sys.argv[1]](sys.argv[2] if len(sys.argv) > 2 else None))
