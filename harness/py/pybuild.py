"""Builds the solver library, the bindings and the probe from the current sources into a scratch package directory."""
import glob, os, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("REPO_DIR", "/repo")
CACHE = os.environ.get("MC_CACHE")

def ext_suffix():
    import sysconfig
    return sysconfig.get_config_var("EXT_SUFFIX")

def build(scratch, prefix, bindings=True):
    import sysconfig
    import numpy
    inc = ["-I" + REPO + "/include", "-I" + VERIF + "/harness", "-isystem", prefix + "/include", "-isystem", prefix + "/include/eigen3",
           "-isystem", sysconfig.get_paths()["include"], "-isystem", numpy.get_include()]
    base = ["g++", "-std=gnu++17", "-O1", "-DNDEBUG", "-fPIC", "-w", "-DMIM_SOLVERS_WITH_PROXQP"] + inc
    walk = lambda d: [os.path.join(a, f) for a, _, fs in sorted(os.walk(os.path.join(REPO, d))) for f in sorted(fs) if f.endswith((".cpp", ".cc", ".cxx"))]
    lib = [f for f in walk("src") if not f.endswith("src/main.cpp")]
    bnd = walk("bindings") if bindings else []
    probe = [os.path.join(HERE, "probe.cpp")] if bindings else []
    hdr = b""
    if CACHE:
        for d in (REPO + "/include", REPO + "/bindings", VERIF + "/harness"):
            for a, _, fs in sorted(os.walk(d)):
                for f in sorted(fs):
                    if f.endswith(".hpp"): hdr += open(os.path.join(a, f), "rb").read()
    def one(src):
        o = os.path.join(scratch, hashlib.md5(src.encode()).hexdigest() + ".o")
        # the driver of the check and the bindings need little optimisation
        cmd = base + (["-O0"] if src in bnd or src in probe else []) + ["-c", src, "-o", o]
        if CACHE:
            k = os.path.join(CACHE, hashlib.sha256(hdr + " ".join(base).encode() + src.encode() + open(src, "rb").read()).hexdigest() + ".o")
            if os.path.exists(k): shutil.copy(k, o); return o
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: print("BUILD FAILED", src, r.stderr[-3000:]); os._exit(3)
        if CACHE:
            os.makedirs(CACHE, exist_ok=True); shutil.copy(o, k + ".tmp%d" % os.getpid()); os.replace(k + ".tmp%d" % os.getpid(), k)
        return o
    todo = sorted(lib + bnd + probe, key=lambda s: -(9 if "proxqp" in s and s in lib else 8 if s in probe else 5 if s in bnd else 3))
    with ThreadPoolExecutor(8) as ex: objs = dict(zip(todo, ex.map(one, todo)))
    pkg = os.path.join(scratch, "pkg"); mod = os.path.join(pkg, "mim_solvers"); os.makedirs(mod)
    L = ["-L" + prefix + "/lib", "-Wl,-rpath," + prefix + "/lib"]
    def link(out, objs, libs):
        r = subprocess.run(["g++", "-shared", "-o", out] + objs + L + libs, capture_output=True, text=True)
        if r.returncode: print("LINK FAILED", r.stderr[-3000:]); os._exit(3)
    link(os.path.join(pkg, "libmim_solvers.so"), [objs[s] for s in lib], ["-lcrocoddyl"])
    bl = [os.path.basename(f) for f in glob.glob(prefix + "/lib/libboost_python3*.so")]
    libs = ["-L" + pkg, "-Wl,-rpath," + pkg, "-lmim_solvers", "-leigenpy", "-lcrocoddyl", "-l" + bl[0][3:-3]]
    if bindings:
        link(os.path.join(mod, "mim_solvers_pywrap" + ext_suffix()), [objs[s] for s in bnd], libs)
        link(os.path.join(pkg, "probe" + ext_suffix()), [objs[s] for s in probe], libs)
    for f in glob.glob(REPO + "/bindings/mim_solvers/*.py"): shutil.copy(f, mod)
    return pkg
