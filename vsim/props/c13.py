"""C13: code generation is deterministic and never leaves a wrong file after an error."""

import argparse  # noqa: F401  (what the generators import, so that forked runs start quickly)
import ctypes
import errno
import gc
import hashlib
import io
import itertools
import json
import os
import pathlib  # noqa: F401
import random
import re  # noqa: F401
import runpy
import select
import shutil
import signal
import subprocess
import sys
import textwrap  # noqa: F401
import tomllib  # noqa: F401
import traceback

import numpy as np  # noqa: F401

ID = "C13"
LEVEL = "exploration"
VARIANT = "plain"
PRELOAD = ["simio.so"]
RUNS = {"quick": 3600, "thorough": 250000}
RULE = ("one run = a history of generator runs into one directory on a simulated disk, with leftovers of "
        "earlier runs, errors, short transfers, a full disk and crashes at seeded file operations, then a "
        "run without faults of every generator that did not finish; non-trivial when a fault struck or a "
        "leftover was there; distinct by the log of file operations and outcomes")
MEASURE = "hash of (generators, leftovers, file operations with results, exit statuses)"
REAL = "the generator scripts and templates, Python, shutil, argparse"
STUB = "the C library's file functions (simio.so), the wall clock, directory listing order"
ASSUMPTIONS = ["a read that is cut short without an error is followed by further reads, as on a real disk",
               "a crash loses nothing that was written, only what was not yet",
               "generators that need mpmath and are not part of the build are not run"]

OPENW, OPENR, READ, WRITE, CLOSE, COPY, META = range(7)
NAMES = ["open-for-writing", "open-for-reading", "read", "write", "close", "copy", "metadata"]
ERR, SHORT, CRASH, TORN, ERRALL = 1, 2, 3, 4, 5
MODES = {ERR: "error", SHORT: "short", CRASH: "crash", TORN: "torn", ERRALL: "error-from-then-on"}
E = errno
ERRS = {OPENW: [E.ENOSPC, E.EMFILE, E.EACCES, E.EIO, E.EROFS, E.EINTR, E.ENOENT],
        OPENR: [E.EMFILE, E.EIO, E.EACCES, E.EINTR, E.ENOENT],
        READ: [E.EIO, E.EINTR], WRITE: [E.ENOSPC, E.EIO, E.EDQUOT, E.EINTR],
        CLOSE: [E.EIO, E.ENOSPC, E.EDQUOT], COPY: [E.ENOSPC, E.EIO, E.EINVAL, E.EINTR],
        META: [E.EIO, E.EPERM, E.ENOSPC]}

TREE = os.environ.get("VSIM_TREE", "/nonexistent")
IO = None
GENS = {}
REF = {}
ROOT = None
CTR = itertools.count()


def discover():
    g = {}
    for d in sorted(os.listdir(os.path.join(TREE, "src"))):
        p = os.path.join(TREE, "src", d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f == "define_cxx_gufunc_extmod.py":
                g["gufunc:" + d] = ("tools/cxxgen/generate_gufunc.py", [p], None)
            elif f == "define_cxxgen_extmods.py":
                g["ufuncs:" + d] = ("tools/cxxgen/generate_ufuncs.py", [p], None)
            elif f.endswith(".src"):
                g["conv:" + f] = ("tools/conv_template.py", [os.path.join(p, f)], None)
    g["version"] = ("_build_utils/make_version_file.py", [os.path.join(TREE, "pyproject.toml")], "_version.py")
    if os.path.exists(os.path.join(TREE, "_build_utils/copyfiles.py")):
        u = os.path.join(TREE, "src", "util")
        fs = [os.path.join(u, f) for f in sorted(os.listdir(u)) if f.endswith((".h", ".hpp"))]
        g["copy"] = ("_build_utils/copyfiles.py", fs, None)
    return {k: v for k, v in g.items() if os.path.exists(os.path.join(TREE, v[0]))}


def gen(rng, tier):
    names = sorted(GENS)
    use = [rng.choice(names) for _ in range(rng.choice([1, 1, 1, 2]))]
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        g = rng.choice(use)
        r = {"g": g, "f": [], "budget": -1, "cwd": rng.choice(["dest", "tree", "root", "scratch", "decoy"]),
             "rel": int(rng.random() < .4), "order": rng.randrange(1 << 20), "clock": 0, "how": "fork"}
        if rng.random() < .25:
            r["clock"] = rng.choice([-10**9, 3600, 86400 * 400, 10**9])
        q = rng.random()
        cnt = REF[g]["ops"]
        if q < .06:
            r["how"] = "spawn"
            r["hash"] = rng.choice([0, 1, 2, 3, 17, 4242, 99999])
        elif q < .16:
            total = sum(REF[g]["sizes"].values())
            r["budget"] = rng.choice([0, 1, 100, rng.randrange(total + 1), rng.randrange(total + 1)])
        elif q < .90:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                cls = rng.choice([c for c in (OPENW, OPENR, READ, WRITE, WRITE, WRITE, WRITE, CLOSE, CLOSE, COPY, COPY,
                                              META) if cnt[c]] or [WRITE])
                mode = rng.choice({OPENW: [ERR, ERR, CRASH], OPENR: [ERR, CRASH], READ: [ERR, ERR, SHORT, CRASH],
                                   CLOSE: [ERR, ERR, CRASH], META: [ERR, CRASH]}.get(
                                       cls, [ERR, ERR, SHORT, SHORT, CRASH, TORN, TORN, ERRALL]))
                k = rng.randrange(1, cnt[cls] + 2) if cnt[cls] else 1
                arg = rng.choice(ERRS[cls]) if mode in (ERR, ERRALL) else rng.choice([0, 1, 128, 250, rng.randrange(256)])
                if mode == ERRALL and arg == E.EINTR:
                    arg = E.EIO         # a call that is interrupted for ever may be repeated for ever
                r["f"].append([cls, k, mode, arg])
        runs.append(r)
    left = []
    for g in sorted(set(use)):
        if rng.random() < .5:
            for f in sorted(REF[g]["files"]):
                if rng.random() < .6:
                    left.append([g, f, rng.choice(["complete", "trunc", "longer", "garbage", "empty", "stale"]),
                                 rng.randrange(256), rng.choice([0, 0, 10**6, -10**6])])
    if rng.random() < .15:
        g = rng.choice(names)
        left += [[g, f, "complete", 0, 0] for f in sorted(REF[g]["files"]) if not any(f in REF[u]["files"] for u in use)]
    return {"runs": runs, "left": left}


# ------------------------------------------------------------------- one generator

def argv_of(g, dest, cwd, rel):
    script, args, out = GENS[g]
    args = args + [os.path.join(dest, out) if out else dest]
    if rel:
        args = [os.path.relpath(a, cwd) for a in args]
    return [os.path.join(TREE, script)] + args


def shuffled(r):
    """Directory listings in a seeded order."""
    ls, sc = os.listdir, os.scandir

    def listdir(*a):
        x = sorted(ls(*a))
        r.shuffle(x)
        return x

    class Scan:
        def __init__(self, *a):
            with sc(*a) as it:
                self.x = sorted(it, key=lambda e: e.name)
            r.shuffle(self.x)
            self.i = iter(self.x)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.i)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    os.listdir, os.scandir = listdir, Scan


def child(g, dest, cwd, run, errfd):
    """In the forked process: never returns."""
    code = 1
    try:
        signal.alarm(60)
        os.dup2(errfd, 1)
        os.dup2(errfd, 2)
        os.chdir(cwd)
        sys.argv = argv_of(g, dest, cwd, run["rel"])
        sys.path[0] = os.path.dirname(sys.argv[0])
        shuffled(random.Random(run["order"]))
        gc.disable()
        IO.simio_clock(run["clock"])
        IO.simio_on(1)
        try:
            runpy.run_path(sys.argv[0], run_name="__main__")
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except BaseException:
            IO.simio_on(0)
            traceback.print_exc()
            IO.simio_on(1)
            code = 1
        # what the interpreter does at its end: files that were left open are written
        gc.collect()
        for o in gc.get_objects():
            if isinstance(o, io.IOBase) and not o.closed and o not in (sys.stdout, sys.stderr, sys.stdin,
                                                                       sys.__stdout__, sys.__stderr__, sys.__stdin__):
                try:
                    o.flush()
                except Exception:
                    pass
        IO.simio_on(0)
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code & 255)


def execute(g, dest, cwd, run):
    """(exit status, last lines of output)"""
    IO.simio_dirs(os.fsencode(dest), os.fsencode(TREE))
    IO.simio_reset(run["budget"])
    for f in run["f"]:
        IO.simio_plan(*f)
    if run["how"] == "spawn":
        env = {"PATH": "/usr/bin:/bin", "PYTHONHASHSEED": str(run["hash"]), "PYTHONDONTWRITEBYTECODE": "1",
               "OMP_NUM_THREADS": "1", "HOME": "/nonexistent", "USER": f"u{run['hash']}", "LANG": "C.UTF-8"}
        p = subprocess.run([sys.executable] + argv_of(g, dest, cwd, run["rel"]), cwd=cwd, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout[-600:].decode(errors="replace")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(g, dest, cwd, run, w)
    os.close(w)
    out = b""
    while True:
        if not select.select([r], [], [], 70)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    rc = os.waitstatus_to_exitcode(st)
    return rc, out[-600:].decode(errors="replace")


def contents(d):
    res = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                res[os.path.relpath(p, d)] = fh.read()
    return res


def scratch():
    d = os.path.join(ROOT, f"{next(CTR)}", "dest")
    os.makedirs(d)
    return d


CLEAN = {"f": [], "budget": -1, "cwd": "dest", "rel": 0, "order": 1, "clock": 0, "how": "fork"}


def setup():
    global IO, ROOT, GENS
    IO = ctypes.CDLL(None)
    IO.simio_log.restype = ctypes.c_char_p
    IO.simio_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long]
    IO.simio_reset.argtypes = [ctypes.c_long]
    IO.simio_clock.argtypes = [ctypes.c_long]
    for f in ("simio_count", "simio_fired", "simio_srcw"):
        getattr(IO, f).restype = ctypes.c_long
    if IO.simio_init():
        raise RuntimeError("no shared memory for the simulated disk")
    # relative paths between the tree and the scratch directory must not depend on the process
    ROOT = os.path.join(os.path.dirname(TREE), f"gen-{os.getpid():08d}")
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    import atexit
    atexit.register(shutil.rmtree, ROOT, True)
    GENS = discover()
    for g in list(GENS):
        d = scratch()
        rc, out = execute(g, d, d, CLEAN)
        if rc:
            raise RuntimeError(f"generator {g} fails without faults: {out}")
        c = contents(d)
        REF[g] = {"files": c, "sizes": {f: len(b) for f, b in c.items()},
                  "ops": [IO.simio_count(k) for k in range(7)]}
        shutil.rmtree(os.path.dirname(d))
    gc.freeze()         # forked runs collect only what they made
    return {}


def target(case):
    return case["runs"][0]["g"].split(":")[0]


def put_leftovers(case, dest):
    n = 0
    for g, f, what, x, dt in case["left"]:
        if g not in REF or f not in REF[g]["files"]:
            continue
        b = REF[g]["files"][f]
        if what == "trunc":
            b = b[:len(b) * x // 256]
        elif what == "longer":
            b = b + b"\n// leftover\n" * (1 + x)
        elif what == "garbage":
            b = bytes([x]) * (x + 1)
        elif what == "empty":
            b = b""
        elif what == "stale":
            b = b.replace(b"e", b"E", 1 + x)
        p = os.path.join(dest, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(b)
        if dt:
            t = os.stat(p).st_mtime + dt
            os.utime(p, (t, t))
        n += 1
    return n


def decoys(g, d):
    """A current directory with other files of the names that the generator reads and writes."""
    os.makedirs(d, exist_ok=True)
    names = {}
    for a in GENS[g][1]:
        if os.path.isdir(a):
            names.update({f: os.path.join(a, f) for f in os.listdir(a)})
        else:
            names[os.path.basename(a)] = a
    for f in REF[g]["files"]:
        names.setdefault(f, None)
    for f, src in sorted(names.items()):
        if src is None:
            b = b"decoy\n"
        elif not os.path.isfile(src):
            continue
        else:
            with open(src, "rb") as fh:
                b = fh.read()
            b = b.replace(b'version = "', b'version = "9') if f.endswith(".toml") else b.replace(b"e", b"E")
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(b)


def wrong(g, dest):
    """What is missing or different of the files of a generator."""
    for f, b in sorted(REF[g]["files"].items()):
        p = os.path.join(dest, f)
        if not os.path.isfile(p):
            return f"{f} is missing"
        with open(p, "rb") as fh:
            c = fh.read()
        if c != b:
            i = next((i for i, (x, y) in enumerate(zip(b, c)) if x != y), min(len(b), len(c)))
            return f"{f} differs at byte {i} ({len(c)} bytes instead of {len(b)}): " \
                   f"{c[i:i + 40]!r} instead of {b[i:i + 40]!r}"
    return None


def run(case, ctx):
    dest = scratch()
    top = os.path.dirname(dest)
    st = {}
    log = []
    v = None
    last = {}
    struck = put_leftovers(case, dest)
    st["leftovers"] = struck
    dirs = {"dest": dest, "tree": TREE, "root": "/", "scratch": top, "decoy": os.path.join(top, "decoy")}
    if any(r["cwd"] == "decoy" for r in case["runs"]):
        for g in sorted({r["g"] for r in case["runs"]} & set(GENS)):
            decoys(g, dirs["decoy"])
        st["decoys"] = 1
    try:
        for r in case["runs"]:
            if r["g"] not in GENS:
                continue
            v = step(r, dirs, dest, st, log, last)
            if v:
                break
        if not v:
            for g in sorted(last):
                if last[g]:
                    rr = dict(CLEAN, g=g)
                    v = step(rr, dirs, dest, st, log, last, again=True)
                    if v:
                        break
        h = hashlib.sha256(json.dumps(log).encode())
        for f, b in sorted(contents(dest).items()):
            h.update(f.encode() + hashlib.sha256(b).digest())
    finally:
        shutil.rmtree(top)
    faults = sum(x for k, x in st.items() if k.startswith("fault:"))
    sig = hashlib.sha256(json.dumps([log, case["left"]]).encode()).hexdigest()[:16]
    d = hashlib.sha256(h.digest() + json.dumps(v and v["kind"]).encode()).hexdigest()[:16]
    return v, d, bool(faults or struck), sig, st


def step(r, dirs, dest, st, log, last, again=False):
    g = r["g"]
    rc, out = execute(g, dest, dirs[r["cwd"]], r)
    kind = g.split(":")[0]
    ops = sum(IO.simio_count(k) for k in range(7))
    st["steps"] = st.get("steps", 0) + ops
    st["op:" + kind] = st.get("op:" + kind, 0) + 1
    fired = 0
    for m, name in MODES.items():
        n = IO.simio_fired(m)
        if n:
            st["fault:" + name] = st.get("fault:" + name, 0) + n
            fired += n
    n = IO.simio_fired(7)
    if n:
        st["fault:disk-full"] = st.get("fault:disk-full", 0) + n
        fired += n
    if r["how"] == "spawn":
        st["fresh-process"] = st.get("fresh-process", 0) + 1
    io_log = IO.simio_log().decode() if r["how"] == "fork" else ""
    log.append([g, r["how"], rc, hashlib.sha256(io_log.encode()).hexdigest()[:12]])
    last[g] = rc
    what = " and ".join(f"{MODES[m]} at {NAMES[c]} {k}" + (f" ({errno.errorcode.get(a, a)})" if m in (ERR, ERRALL) else "")
                        for c, k, m, a in r["f"]) or ("disk full after %d bytes" % r["budget"] if r["budget"] >= 0
                                                      else "no fault")
    if IO.simio_srcw():
        return {"kind": "writes-source", "target": kind, "detail": f"{g} writes below the source tree; {what}"}
    if rc < 0:
        return {"kind": "crash", "target": kind, "detail": f"{g} died of signal {-rc}; {what}\n{out}"}
    if rc == 0:
        w = wrong(g, dest)
        if w:
            k = "wrong-after-success"
            return {"kind": k, "target": kind, "detail": f"{g} reported success, but {w}; {what}; "
                    f"cwd {r['cwd']}, relative {r['rel']}\n{out}\noperations: {io_log[:300]}"}
    elif not fired:
        return {"kind": "fails", "target": kind, "detail": f"{g} ends with status {rc} though nothing fails"
                f"{' any more' if again else ''}; {what}\n{out}"}
    return None


def shrinks(case):
    rs = case["runs"]
    for i in range(len(rs)):
        if len(rs) > 1:
            yield dict(case, runs=rs[:i] + rs[i + 1:])
    if case["left"]:
        yield dict(case, left=[])
        for i in range(len(case["left"])):
            yield dict(case, left=case["left"][:i] + case["left"][i + 1:])
    for i, r in enumerate(rs):
        for j in range(len(r["f"])):
            yield dict(case, runs=rs[:i] + [dict(r, f=r["f"][:j] + r["f"][j + 1:])] + rs[i + 1:])
        for k, z in (("cwd", "dest"), ("rel", 0), ("clock", 0), ("budget", -1), ("order", 1)):
            if r[k] != z:
                yield dict(case, runs=rs[:i] + [dict(r, **{k: z})] + rs[i + 1:])
