#!/usr/bin/env python3
"""Builds harness executables from /repo's current working tree (content-keyed through ccache, private cache directory)."""
import os, subprocess, sys, hashlib, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
B = os.environ.get("VF_BUILD", os.path.join(V, "build"))
NGS = "/opt/ngs/6.2.2405"
LIBD = NGS + "/lib/python3.12/site-packages/netgen_mesher.libs"
S = REPO + "/src"
DEFS = """-DHAVE_CXA_DEMANGLE -DHAVE_DLFCN_H -DHAVE_NETGEN_SOURCES -DLAPACK -DNETGEN_PYTHON -DNGS_PYTHON -DNG_MPI_WRAPPER -DNG_PYTHON
 -DPARALLEL -DPYBIND11_SIMPLE_GIL_MANAGEMENT -DTCL -DUSE_PARDISO -DUSE_TIMEOFDAY -D_GLIBCXX_USE_CXX11_ABI=1""".split()
INCS = [f"-I{S}/base"] + [f"-I{S}/base/{d}" for d in "utils distributed mesh coarsening factory smoothers solve precond ngs_extension linalg python".split()] \
     + [f"-I{S}/h1", f"-I{S}/elasticity", f"-I{S}/stokes/common", f"-I{S}/stokes/ncfes", f"-I{S}/stokes/hdiv",
        "-isystem", "/usr/include/python3.12", "-isystem", NGS + "/include/netgen", "-isystem", NGS + "/include/netgen/include"]
OPTS = "-Wno-deprecated-declarations -w -DMIS_AGG -DSPW_AGG -DELASTICITY -DSTOKES_AMG -DNGS_COMPATIBILITY -O1 -DNDEBUG -fPIC -march=core-avx2 -fabi-version=17 -std=c++17 -DMAX_SYS_DIM=3".split()
LIBS = [f"{LIBD}/lib{l}.so" for l in "ngsolve ngcomp ngfem ngla ngbla ngstd".split()] + [f"{NGS}/lib/libmkl_rt.so.2", f"{NGS}/lib/libiomp5.so", f"{LIBD}/libnglib.so", f"{LIBD}/libngcore.so"]
LIBS += ["-lm", "-ldl", "-lpthread"]
RP = ["-Wl,--disable-new-dtags", "-Wl,-rpath," + LIBD, "-Wl,-rpath," + NGS + "/lib"]

def group(g):
    if g == "base":
        r = []
        for d in sorted(os.listdir(S + "/base")):
            if d != "python" and os.path.isdir(f"{S}/base/{d}"):
                r += sorted(glob.glob(f"{S}/base/{d}/*.cpp"))
        return [f for f in r if not os.path.basename(f).startswith("python_") and in_build(f)]
    if g == "h1": return [f for f in sorted(glob.glob(S + "/h1/*.cpp")) if "python" not in f and in_build(f)]
    if g == "elast": return [f for f in sorted(glob.glob(S + "/elasticity/*.cpp")) if "python" not in f and in_build(f)]
    if g == "stokes": return [f for f in sorted(glob.glob(S + "/stokes/*/*.cpp")) if in_build(f)]
    raise Exception(g)
# files that exist in the tree but are not part of the repository's build
NOTBUILT = set(["robust_elasticity"])
def in_build(f): return os.path.basename(f)[:-4] not in NOTBUILT

HARNESS = {}   # filled by check.py: name -> dict(src=[...], groups=[...])

def env():
    e = dict(os.environ)
    cc = os.path.join(B, "ccache")
    e.update(CCACHE_DIR=cc, CCACHE_MAXSIZE="3G", CCACHE_NOSTATS="1", CCACHE_TEMPDIR=cc + "/tmp", CCACHE_COMPILERCHECK="content", LC_ALL="C", HOME="/root")
    for k in ("CCACHE_READONLY", "CCACHE_DISABLE", "CCACHE_BASEDIR", "CCACHE_PREFIX"): e.pop(k, None)
    return e

def objname(f, extra=""):
    rel = f.replace(S + "/", "repo_").replace(V + "/", "v_").replace("/", "_")
    return os.path.join(B, "obj", rel[:-4] + extra + ".o")

def compile_one(f, flags=()):
    o = objname(f, "." + hashlib.md5(" ".join(flags).encode()).hexdigest()[:6] if flags else "")
    cmd = ["/usr/bin/ccache", "/usr/bin/g++"] + DEFS + INCS + [f"-I{V}/sim"] + OPTS + list(flags) + ["-c", f, "-o", o]
    for attempt in range(2):
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=B)
        if p.returncode == 0: return o
    raise RuntimeError("compiling %s failed:\n%s" % (f, p.stdout.decode(errors="replace")[-6000:]))

def pystubs(objs):
    """The NGSolve libraries refer to Python symbols that the harnesses never use: satisfy them with zeroed objects."""
    key = hashlib.md5("\n".join(sorted(objs)).encode()).hexdigest()[:8]
    syms = set()
    for l in LIBS:
        if not l.startswith("/"): continue
        for line in subprocess.run(["nm", "-D", "--undefined-only", l], stdout=subprocess.PIPE).stdout.decode().split("\n"):
            n = line.split()[-1] if line.split() else ""
            if n.startswith(("Py", "_Py")): syms.add(n)
    out = subprocess.run(["nm", "--undefined-only"] + objs, stdout=subprocess.PIPE).stdout.decode()
    for line in out.split("\n"):
        w = line.split()
        if len(w) == 2 and w[0] == "U" and w[1].startswith(("Py", "_Py")): syms.add(w[1])
    src, o = f"{B}/obj/pystubs_{key}.c", f"{B}/obj/pystubs_{key}.o"
    open(src, "w").write("\n".join("char %s[4096];" % x for x in sorted(syms)))
    subprocess.run(["/usr/bin/gcc", "-fPIC", "-c", src, "-o", o], check=True)
    return o

def build(names, harness, jobs=None):
    os.makedirs(B + "/obj", exist_ok=True); os.makedirs(B + "/bin", exist_ok=True); os.makedirs(B + "/ccache/tmp", exist_ok=True)
    jobs = jobs or os.cpu_count() or 8
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = {}
        for n in names:
            h = harness[n]
            lst = [(f"{V}/sim/simmpi.cpp", ()), (f"{V}/sim/vf.cpp", ())] + [(f"{V}/harness/{s}", ()) for s in h["src"]]
            for g in h["groups"]: lst += [(f, ()) for f in group(g) if os.path.basename(f)[:-4] not in h.get("exclude", ())]
            want[n] = lst
        allf = []
        for l in want.values():
            for x in l:
                if x not in allf: allf.append(x)
        # long ones first
        heavy = ["loc_block_gssmoother", "utils_sparseMM", "elasticity_3d", "elasticity_2d", "block_gssmoother", "agg", "mis", "hdiv", "nc_stokes", "utils_sparseLA"]
        allf.sort(key=lambda x: next((i for i, k in enumerate(heavy) if k in x[0]), 99))
        with ThreadPoolExecutor(jobs) as ex:
            objs = dict(zip(allf, ex.map(lambda x: compile_one(*x), allf)))
        for n in names:
            exe = f"{B}/bin/{n}"
            ol = [objs[x] for x in want[n]]
            rsp = f"{B}/obj/{n}.rsp"
            ol.append(pystubs(ol))
            open(rsp, "w").write("\n".join(ol))
            cmd = ["/usr/bin/g++", "-rdynamic", "-Wl,--no-as-needed", "-o", exe + ".new", "@" + rsp] + RP + LIBS
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: raise RuntimeError("linking %s failed:\n%s" % (n, p.stdout.decode(errors="replace")[-6000:]))
            os.replace(exe + ".new", exe)
