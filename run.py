#!/usr/bin/env python3
"""Build one check from /repo's current working tree and run it.

  run.py <property id> [--thorough|--quick] [--replay FILE]

Everything is built in a scratch directory that is removed afterwards.
Exit 0: the property held on everything explored; exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed; anything else: the check
itself failed.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO_DIR", "/repo")
CACHE = os.environ.get("MC_CACHE")  # development only: reuse objects keyed by content
JOBS = int(os.environ.get("MC_JOBS", "8"))

def sources():
    """Every library source of the current tree (main.cpp is only a stub executable)."""
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            r = os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src"))
            if f.endswith((".cpp", ".cc", ".cxx")) and r != "main.cpp":
                out.append(r)
    return out


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; echo $PREFIX; echo $VENV"],
                         capture_output=True, text=True).stdout.split("\n")
    prefix, venv = out[0], out[1]
    if not prefix:
        prefix = "/opt/mim-venv/lib/python3.12/site-packages/cmeel.prefix"
        venv = "/opt/mim-venv"
    return e, prefix, venv


def tree_hash():
    h = hashlib.sha256()
    for base in ("include",):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, base))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for d, dirs, files in sorted(os.walk(os.path.join(VERIF, "harness"))):
        for f in sorted(files):
            if f.endswith(".hpp"):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def compile_one(cmd, src, obj, key):
    if CACHE:
        k = hashlib.sha256((key + " ".join(cmd) + src).encode() + open(src, "rb").read()).hexdigest()
        c = os.path.join(CACHE, k + ".o")
        if os.path.exists(c):
            os.utime(c)
            shutil.copy(c, obj)
            return None
    r = subprocess.run(cmd + ["-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (src, r.stderr[-4000:])
    if CACHE:
        os.makedirs(CACHE, exist_ok=True)
        shutil.copy(obj, c + ".tmp%d" % os.getpid())
        os.replace(c + ".tmp%d" % os.getpid(), c)
    return None


def build(tag, harness, src, flags, ldflags, scratch, prefix, cxx="g++", plain=()):
    """Compile /repo sources and the harness sources in parallel and link them."""
    base = [cxx, "-std=gnu++17", "-DMIM_SOLVERS_WITH_PROXQP", "-I" + REPO + "/include", "-I" + VERIF + "/harness",
            "-isystem", prefix + "/include", "-isystem", prefix + "/include/eigen3", "-w"]
    special = {os.path.join(VERIF, "harness", f): base + ["-O2"] for f in plain}  # compiled without the check's flags
    base = base + flags
    key = tree_hash() if CACHE else ""
    todo = [(os.path.join(VERIF, "harness", h), os.path.join(scratch, tag + "_h%d.o" % i)) for i, h in enumerate(list(harness) + list(plain))]
    todo += [(os.path.join(REPO, "src", s), os.path.join(scratch, tag + "_" + s.replace("/", "_") + ".o")) for s in src]
    # biggest first
    todo.sort(key=lambda p: -(100 if "csqp_proxqp" in p[0] else 50 if "harness" in p[0] else 30 if "/ddp" in p[0] else 1))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(lambda p: compile_one(special.get(p[0], base), p[0], p[1], key), todo) if e]
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs))
        sys.exit(3)
    exe = os.path.join(scratch, tag)
    cmd = [cxx] + [o for _, o in todo] + ["-o", exe, "-L" + prefix + "/lib", "-Wl,-rpath," + prefix + "/lib", "-rdynamic"] + ldflags + ["-lcrocoddyl"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        print("LINK FAILED\n" + r.stderr[-4000:])
        sys.exit(3)
    return exe


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    prop = sys.argv[1]
    args = sys.argv[2:]
    cfg = json.load(open(os.path.join(VERIF, "checks.json")))[prop]
    e, prefix, venv = env()
    e["LD_LIBRARY_PATH"] = prefix + "/lib"
    e["VERIF_DIR"] = VERIF
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.setdefault("OMP_NUM_THREADS", "1")
    if "--thorough" in args:
        e["VERIF_TIER"] = "thorough"
    elif "--quick" in args:
        e["VERIF_TIER"] = "quick"
    scratch = tempfile.mkdtemp(prefix="mcv-")
    rc = 2
    try:
        t0 = time.time()
        e["MC_SCRATCH"] = scratch
        if "script" in cfg:
            e["MC_PREFIX"], e["MC_VENV"] = prefix, venv
            rc = subprocess.run([venv + "/bin/python3" if cfg.get("venv") else sys.executable,
                                 os.path.join(VERIF, cfg["script"])] + args, env=e, cwd=scratch).returncode
        else:
            exe = build(prop, cfg["harness"], sources(), cfg.get("flags", ["-O1", "-DNDEBUG"]),
                        cfg.get("ldflags", []), scratch, prefix, plain=cfg.get("plain", ()))
            e["MC_BUILD_S"] = "%.1f" % (time.time() - t0)
            e.update(cfg.get("env", {}))
            rc = subprocess.run([exe] + args, env=e, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
