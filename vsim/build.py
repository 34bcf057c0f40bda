"""Builds /repo's current working tree out of tree.

A snapshot of the working tree (every file git does not ignore) is copied to
/verif/.cache/<content hash>-<variant>/repo and built there with the same meson
options as the shipped build, so /repo itself is never touched.

Variants
    plain   the flags of the shipped build
    cov     the same plus -fsanitize-coverage=trace-pc: every basic block of the
            extension modules calls the simulator's scheduler (vsim/rt/simrt.c)
"""

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

ENV_DROP = ("PYTHONPATH", "PYTHONHOME", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD",
            "PYTEST_ADDOPTS", "PYTHONMALLOC")


class BuildError(Exception):
    pass


def clean_env():
    env = {k: v for k, v in os.environ.items() if k not in ENV_DROP}
    env.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        CC="gcc", CXX="g++", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1", HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8")
    return env


def repo_files():
    p = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co",
                        "--exclude-standard", "-z"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode == 0:
        names = [n for n in p.stdout.decode().split("\0") if n]
    else:
        names = []
        for d, dirs, fs in os.walk(REPO):
            dirs[:] = [x for x in dirs if x not in (".git", "build", "__pycache__")]
            names += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    return sorted(n for n in set(names)
                  if os.path.isfile(os.path.join(REPO, n)) and not n.endswith(".pyc"))


def tree_hash(names):
    h = hashlib.sha256()
    for n in names:
        h.update(n.encode() + b"\0")
        with open(os.path.join(REPO, n), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def own_hash():
    """Of what decides how the tree is built."""
    h = hashlib.sha256()
    for n in ("build.py", "rt/stub/covstub.c"):
        with open(os.path.join(VERIF, "vsim", n), "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:6]


def copy_tree(names, dest):
    for n in names:
        d = os.path.join(dest, n)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, n), d)


def _run(cmd, cwd, env, log):
    with open(log, "ab") as f:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    if p.returncode:
        with open(log, "rb") as f:
            tail = f.read()[-3000:].decode(errors="replace")
        raise BuildError(f"{' '.join(cmd)} failed:\n{tail}")


def _prune(keep):
    try:
        ents = [e for e in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, e))
                and ("-plain" in e or "-cov" in e)]
    except OSError:
        return
    ents.sort(key=lambda e: os.path.getmtime(os.path.join(CACHE, e)))
    for e in ents[:-6]:
        if e != keep:
            shutil.rmtree(os.path.join(CACHE, e), ignore_errors=True)


def build(variant="plain"):
    """Returns the directory to put on sys.path."""
    os.makedirs(CACHE, exist_ok=True)
    names = repo_files()
    key = f"{tree_hash(names)}-{own_hash()}-{variant}"
    top = os.path.join(CACHE, key)
    site = os.path.join(top, "site")
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(top, "ok")):
            os.utime(top)
            return site
        shutil.rmtree(top, ignore_errors=True)
        _prune(key)
        src = os.path.join(top, "repo")
        copy_tree(names, src)
        env = clean_env()
        if variant == "cov":
            # A weak do-nothing callback in every module; simrt.so, preloaded, overrides it.
            stub = os.path.join(top, "stub.o")
            _run(["gcc", "-O2", "-fPIC", "-c", "-o", stub,
                  os.path.join(VERIF, "vsim", "rt", "stub", "covstub.c")], top, env,
                 os.path.join(top, "log"))
            # -O1: no loop versions chosen by the addresses of the operands, so that the
            # number of basic blocks of a call is a function of its arguments.
            env["CFLAGS"] = env["CXXFLAGS"] = "-O1 -fno-tree-vectorize -fsanitize-coverage=trace-pc"
            env["LDFLAGS"] = stub
        log = os.path.join(top, "log")
        bd = os.path.join(src, "build")
        _run(["meson", "setup", bd, "--prefix", os.path.join(top, "inst"),
              "--buildtype=release", "-Db_ndebug=if-release", "-Doptimization=3",
              "--wrap-mode=nodownload", f"-Dpython.purelibdir={site}",
              f"-Dpython.platlibdir={site}", "-Dpython.bytecompile=-1"], src, env, log)
        _run(["ninja", "-C", bd], src, env, log)
        _run(["meson", "install", "-C", bd, "--no-rebuild", "--quiet"], src, env, log)
        shutil.rmtree(bd, ignore_errors=True)
        open(os.path.join(top, "ok"), "w").close()
    return site


def build_rt():
    """Compiles the simulator's runtime: simrt.so (preloaded) and _simext (Python module)."""
    import sysconfig
    os.makedirs(CACHE, exist_ok=True)
    rt = os.path.join(VERIF, "vsim", "rt")
    h = hashlib.sha256()
    for n in sorted(os.listdir(rt)):
        if n.endswith((".c", ".h")):
            with open(os.path.join(rt, n), "rb") as f:
                h.update(n.encode() + f.read())
    out = os.path.join(CACHE, "rt-" + h.hexdigest()[:16])
    with open(os.path.join(CACHE, "lock-rt"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        os.makedirs(out, exist_ok=True)
        env = clean_env()
        log = os.path.join(out, "log")
        inc = sysconfig.get_paths()["include"]
        npinc = subprocess.run([sys.executable, "-c", "import numpy; print(numpy.get_include())"],
                               env=env, stdout=subprocess.PIPE, check=True).stdout.decode().strip()
        _run(["gcc", "-O2", "-g", "-fPIC", "-shared", "-Wall", "-Werror", "-o",
              os.path.join(out, "simrt.so"), os.path.join(rt, "simrt.c"), "-lpthread", "-ldl"],
             rt, env, log)
        _run(["gcc", "-O2", "-g", "-fPIC", "-shared", "-Wall", "-Werror", "-fno-stack-protector",
              "-U_FORTIFY_SOURCE", "-o", os.path.join(out, "simio.so"), os.path.join(rt, "simio.c")],
             rt, env, log)
        _run(["gcc", "-O2", "-g", "-fPIC", "-shared", "-Wall", "-Werror", f"-I{inc}", f"-I{npinc}",
              "-o", os.path.join(out, "_simext.so"), os.path.join(rt, "simext.c"), "-lm"],
             rt, env, log)
        open(os.path.join(out, "ok"), "w").close()
    return out


if __name__ == "__main__":
    for v in sys.argv[1:]:
        t = time.time()
        print(v, build_rt() if v == "rt" else build(v), f"{time.time() - t:.1f}s")
