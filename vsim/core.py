"""Runs a property's simulations in worker processes and reports the outcome.

One integer (VERIF_SEED) decides everything: run i of property P draws every choice from
PRNG(sha256(VERIF_SEED, P, i)).  A run is a JSON case made by gen(); executing a case is a
pure function of the case and the code under test.
"""

import hashlib
import importlib
import json
import os
import random
import selectors
import signal
import subprocess
import sys
import time

from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
WORKERS = max(1, min(8, len(os.sched_getaffinity(0))))
CASE_TIMEOUT = 90.0


class HarnessError(Exception):
    pass


def run_seed(seed, prop, i):
    h = hashlib.sha256(f"{seed}:{prop}:{i}".encode()).digest()
    return int.from_bytes(h[:8], "little")


def make_case(mod, seed, i, tier):
    rng = random.Random(run_seed(seed, mod.ID, i))
    return mod.gen(rng, tier)


def load(prop):
    return importlib.import_module("vsim.props." + prop.lower())


def key_of(v):
    return f"{v['kind']}:{v['target']}"


def target_of(mod, case):
    f = getattr(mod, "target", None)
    try:
        return f(case) if f else "-"
    except Exception:
        return "-"


class Worker:
    """One process that executes cases; a crash of the code under test ends only it."""

    def __init__(self, mod, site, rt, hashseed="0"):
        env = build.clean_env()
        env["PYTHONHASHSEED"] = hashseed
        env["PYTHONPATH"] = os.pathsep.join([VERIF, site, rt])
        env["LD_PRELOAD"] = ":".join(os.path.join(rt, n) for n in getattr(mod, "PRELOAD", ["simrt.so"]))
        env.update(getattr(mod, "ENV", {}))
        env["VSIM_SITE"] = site
        env["VSIM_TREE"] = os.path.join(os.path.dirname(site), "repo")
        self.errpath = os.path.join(build.CACHE, f"stderr-{os.getpid()}-{id(self)}")
        self.err = open(self.errpath, "w+b")
        r, w = os.pipe()
        os.set_inheritable(w, True)
        env["VSIM_FD"] = str(w)
        self.p = subprocess.Popen([sys.executable, "-X", "faulthandler", "-m", "vsim.worker", mod.ID],
                                  stdin=subprocess.PIPE, stdout=self.err, stderr=self.err,
                                  env=env, close_fds=True, pass_fds=(w,), cwd=build.CACHE,
                                  start_new_session=True)
        os.close(w)
        self.r = r
        os.set_blocking(r, False)
        self.buf = b""
        self.mod = mod

    def send(self, obj):
        try:
            self.p.stdin.write(json.dumps(obj).encode() + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            pass

    def poll_lines(self):
        """(lines, eof)"""
        eof = False
        while True:
            try:
                b = os.read(self.r, 1 << 16)
            except BlockingIOError:
                break
            if not b:
                eof = True
                break
            self.buf += b
        *lines, self.buf = self.buf.split(b"\n")
        out = []
        for x in lines:
            if x:
                try:
                    out.append(json.loads(x))
                except ValueError:
                    out.append({"err": "the worker wrote " + repr(x[:200])})
        return out, eof

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        self.close()

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        if self.r is not None:
            os.close(self.r)
            self.r = None
        if self.err:
            self.err.close()
            self.err = None
            os.unlink(self.errpath)

    def stderr_tail(self, n=2500):
        self.err.flush()
        with open(self.errpath, "rb") as f:
            data = f.read()
        return data[-n:].decode(errors="replace")

    def crash_violation(self, case):
        rc = self.p.wait()
        if rc < 0:
            try:
                what = signal.Signals(-rc).name
            except ValueError:
                what = f"signal {-rc}"
        else:
            what = f"exit {rc}"
        if rc == 77:
            return {"kind": "step-budget", "target": target_of(self.mod, case), "detail": self.stderr_tail(1500)}
        return {"kind": f"crash-{what}", "target": target_of(self.mod, case),
                "detail": f"the process died ({what})\n" + self.stderr_tail(1500)}


class Pool:
    """Executes single cases, each in a worker that is replaced when it dies."""

    def __init__(self, mod, site, rt, hashseed="0"):
        self.args = (mod, site, rt, hashseed)
        self.w = None

    def gen(self, seed, i, tier):
        if self.w is None:
            self.w = Worker(*self.args)
        self.w.send({"op": "gen", "seed": seed, "i": i, "tier": tier})
        while True:
            lines, eof = self.w.poll_lines()
            for x in lines:
                if "case" in x:
                    return x["case"]
                if "err" in x:
                    raise HarnessError(x["err"])
            if eof:
                raise HarnessError("a worker died while making a case:\n" + self.w.stderr_tail())
            time.sleep(0.01)

    def run(self, case, timeout=CASE_TIMEOUT, fresh=False):
        if fresh and self.w:
            self.close()
        if self.w is None:
            self.w = Worker(*self.args)
        self.w.send({"op": "case", "case": case})
        t0 = time.monotonic()
        sel = selectors.DefaultSelector()
        sel.register(self.w.r, selectors.EVENT_READ)
        while True:
            left = timeout - (time.monotonic() - t0)
            if left <= 0:
                v = {"kind": "hang", "target": target_of(self.args[0], case),
                     "detail": f"no result within {timeout:.0f} s"}
                self.w.kill()
                self.w = None
                return {"v": v, "d": "hang", "n": 0, "sig": "", "st": {}}
            sel.select(left)
            lines, eof = self.w.poll_lines()
            for x in lines:
                if "err" in x:
                    raise HarnessError(x["err"])
                if "d" in x:
                    return x
            if eof:
                v = self.w.crash_violation(case)
                self.w.close()
                self.w = None
                return {"v": v, "d": "crash", "n": 0, "sig": "", "st": {}}

    def close(self):
        if self.w:
            self.w.kill()
            self.w = None


def makes_cases(mod, site, rt, seed, tier, queue):
    """Whether a fresh process can make the next case."""
    pool = Pool(mod, site, rt)
    try:
        pool.gen(seed, queue[0] if queue else 0, tier)
        return True
    except HarnessError:
        return False
    finally:
        pool.close()


def batch(mod, site, rt, seed, tier, n, deadline, hashseed="0", workers=WORKERS, indices=None):
    """Runs cases 0..n-1 (or indices).  Returns {i: result}."""
    res = {}
    idx = list(range(n)) if indices is None else list(indices)
    queues = [idx[w::workers] for w in range(workers)]
    sel = selectors.DefaultSelector()
    live = {}
    stop_new = False

    def launch(w):
        if not queues[w] or stop_new:
            return
        wk = Worker(mod, site, rt, hashseed)
        wk.cur = None
        wk.last = None
        wk.t = time.monotonic()
        wk.slot = w
        live[wk.r] = wk
        sel.register(wk.r, selectors.EVENT_READ)
        wk.send({"op": "batch", "seed": seed, "tier": tier, "idx": queues[w]})

    for w in range(workers):
        launch(w)
    crashes = 0
    while live:
        sel.select(1.0)
        now = time.monotonic()
        if now > deadline and not stop_new:
            stop_new = True
        for fd, wk in list(live.items()):
            lines, eof = wk.poll_lines()
            broken = False
            for x in lines:
                if "err" in x:
                    if wk.last is None or crashes > 24 or not makes_cases(mod, site, rt, seed, tier, queues[wk.slot]):
                        for k in live.values():
                            k.kill()
                        raise HarnessError(x["err"])
                    # A fresh process makes the case: the last execution has damaged this one.
                    i, case = wk.last
                    crashes += 1
                    res[i] = {"e": i, "v": {"kind": "damage", "target": target_of(mod, case),
                                            "detail": "after the execution the process is damaged: " + x["err"][-800:]},
                              "d": "crash", "n": 0, "sig": "", "st": {}, "case": case}
                    broken = True
                    break
                wk.t = now
                if "s" in x:
                    wk.cur = x["s"]
                    wk.case = x["case"]
                elif "e" in x:
                    res[x["e"]] = x
                    wk.last = (x["e"], wk.case)
                    if x["v"] or x["e"] < 12:
                        x["case"] = wk.case
                    wk.cur = None
                    queues[wk.slot] = queues[wk.slot][1:]
            gone = False
            if broken:
                wk.kill()
                gone = True
            elif not eof and now - wk.t > CASE_TIMEOUT:
                i = wk.cur
                if i is None and wk.last:
                    # what it executed before broke the process
                    i, wk.case = wk.last
                wk.kill()
                gone = True
                if i is None:
                    for k in live.values():
                        if k is not wk:
                            k.kill()
                    raise HarnessError("a worker gave no answer while idle")
                res[i] = {"e": i, "v": {"kind": "hang", "target": target_of(mod, wk.case),
                                        "detail": f"no result within {CASE_TIMEOUT:.0f} s"},
                          "d": "hang", "n": 0, "sig": "", "st": {}, "case": wk.case}
            elif eof:
                i = wk.cur
                gone = True
                if i is None:
                    rc = wk.p.wait()
                    tail = wk.stderr_tail()
                    died = rc != 0 and queues[wk.slot] and not stop_new
                    if died and wk.last:
                        # The heap was damaged by one of the executed cases.
                        i, case = wk.last
                        res[i] = {"e": i, "v": wk.crash_violation(case), "d": "crash", "n": 0,
                                  "sig": "", "st": {}, "case": case}
                        crashes += 1
                        wk.close()
                        sel.unregister(fd)
                        del live[fd]
                        if crashes <= 24:
                            launch(wk.slot)
                        continue
                    wk.close()
                    if died:
                        del live[fd]
                        for k in live.values():
                            k.kill()
                        raise HarnessError(f"a worker died between cases (status {rc}):\n{tail}")
                else:
                    res[i] = {"e": i, "v": wk.crash_violation(wk.case), "d": "crash", "n": 0,
                              "sig": "", "st": {}, "case": wk.case}
                    wk.close()
            elif stop_new and wk.cur is not None and now > deadline + 5:
                wk.kill()
                gone = True
            elif stop_new and now > deadline:
                wk.send({"op": "stop"})
            if gone:
                sel.unregister(fd)
                del live[fd]
                i = wk.cur
                if i is not None and i in res:
                    queues[wk.slot] = queues[wk.slot][1:]
                    crashes += 1
                if (broken or i is not None) and crashes <= 24:
                    launch(wk.slot)
    return res


def known_findings(prop):
    """The unrepaired findings: lines "known: property=<id> key=<violation key> <what fails>".

    Lines "fixed: ..." only record repairs and suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop \
                        and w[2].startswith("key="):
                    out.append({"key": w[2][4:], "what": w[3].strip()})
    return out


def shrink(mod, pool, case, key, budget=45.0):
    t0 = time.monotonic()
    tried = 0
    if hasattr(mod, "concretize"):
        # replace the scheduler's seed by the schedule it produced
        r = pool.run(case, timeout=30)
        c = mod.concretize(case, r["v"]) if r["v"] else None
        if c:
            r = pool.run(c, timeout=30)
            if r["v"] and key_of(r["v"]) == key:
                case = c
    progress = True
    seen = set()
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for c in mod.shrinks(case):
            s = json.dumps(c, sort_keys=True)
            if s in seen:
                continue
            seen.add(s)
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            try:
                r = pool.run(c, timeout=30)
            except HarnessError:
                pool.close()
                continue
            if r["v"] and key_of(r["v"]) == key:
                case = c
                progress = True
                break
    return case, tried


def corpus(prop):
    d = os.path.join(VERIF, "corpus", prop)
    out = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.endswith(".json"):
                with open(os.path.join(d, n)) as f:
                    out.append((n, json.load(f)))
    return out


def check(prop, tier, seed):
    t0 = time.monotonic()
    mod = load(prop)
    site = build.build(mod.VARIANT)
    rt = build.build_rt()
    t_build = time.monotonic() - t0
    pool = Pool(mod, site, rt)
    n = mod.RUNS[tier]
    wall = {"quick": 240.0, "thorough": 3000.0}[tier]
    knowns = {k["key"]: k for k in known_findings(prop)}
    found = []      # (violation, case, origin)
    harness = None
    seen_known = set()
    corp = corpus(prop)
    for name, case in corp:
        r = pool.run(case["case"])
        if r["v"]:
            found.append((r["v"], case["case"], f"corpus {name}"))
    t1 = time.monotonic()
    res = batch(mod, site, rt, seed, tier, n, t1 + wall)
    t_sim = time.monotonic() - t1
    for i in sorted(res):
        if res[i]["v"]:
            found.append((res[i]["v"], res[i]["case"], i))

    # Determinism: a sample again, in fresh processes, with another worker count and
    # another hash seed.  Any difference is a dependence on something uncontrolled.
    ok = [i for i in sorted(res) if not res[i]["v"]]
    k = min(len(ok), mod.RECHECK[tier] if hasattr(mod, "RECHECK") else (40 if tier == "quick" else 200))
    sample = [ok[j * len(ok) // k] for j in range(k)] if k else []
    mismatches = []
    if sample and not [f for f in found if key_of(f[0]) not in knowns]:
        again = batch(mod, site, rt, seed, tier, n, time.monotonic() + 120, hashseed="4242",
                      workers=max(1, WORKERS - 3), indices=sample)
        for i in sample:
            if i in again and again[i]["d"] != res[i]["d"]:
                mismatches.append(i)
                if getattr(mod, "NONDET", "violation") == "note":
                    # the log contains more than the outcome (e.g. counts of basic blocks)
                    print(f"note: run {i} gave the logs {res[i]['d']} and {again[i]['d']}")
                    continue
                case = pool.gen(seed, i, tier)
                found.append(({"kind": "nondeterministic", "target": target_of(mod, case),
                               "detail": "the same simulated execution gave two different logs: "
                               f"{res[i]['d']} and {again[i]['d']}"}, case, i))

    new = {}
    for v, case, origin in found:
        if key_of(v) in knowns:
            seen_known.add(key_of(v))
        else:
            new.setdefault(key_of(v), []).append((v, case, origin))
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {knowns[key]['what']}")

    status = 0
    if new:
        status = 1
        keys = sorted(new, key=lambda q: (q.startswith(("hang", "nondet")), -len(new[q])))
        for key in keys[:2]:
            try:
                path = report(mod, site, rt, prop, seed, tier, key, new[key])
            except HarnessError:
                path = report(mod, site, rt, prop, seed, tier, key, new[key], confirm=False)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {key}")
            print("  " + new[key][0][0]["detail"].strip().replace("\n", "\n  ")[:2000])
        for key in keys[2:8]:
            print(f"  also: {key} ({len(new[key])} runs)")
    pool.close()
    evidence(mod, prop, tier, seed, res, n, t_build, t_sim, time.monotonic() - t0, sample,
             mismatches, len(corp), new, seen_known)
    return status


def report(mod, site, rt, prop, seed, tier, key, items, confirm=True):
    """Minimises, confirms in a fresh process and writes the replay file."""
    v, case, origin = items[0]
    pool = Pool(mod, site, rt)
    confirmed = False
    small, tried = case, 0
    history = None
    try:
        if v["kind"] == "nondeterministic":
            confirmed = True
        elif not confirm:
            if isinstance(origin, int):
                history = [j for j in range(origin % WORKERS, origin + 1, WORKERS)]
        else:
            for v2, c2, o2 in items[:6]:
                r = pool.run(c2, fresh=True)
                if r["v"] and key_of(r["v"]) == key:
                    v, case, origin = v2, c2, o2
                    confirmed = True
                    break
            if confirmed:
                small, tried = shrink(mod, pool, case, key)
                r = pool.run(small, fresh=True)
                if not (r["v"] and key_of(r["v"]) == key):
                    small = case
                else:
                    v = r["v"]
            elif isinstance(origin, int):
                # It needs what the worker had executed before: replay that history.
                history = [j for j in range(origin % WORKERS, origin + 1, WORKERS)]
    finally:
        pool.close()
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{hashlib.sha256(key.encode()).hexdigest()[:8]}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "run": origin, "key": key, "violation": v,
                   "case": small, "confirmed": confirmed, "history": history, "tier": tier,
                   "shrink_attempts": tried}, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    mod = load(rp["property"])
    site = build.build(mod.VARIANT)
    rt = build.build_rt()
    pool = Pool(mod, site, rt)
    if rp.get("history"):
        r = None
        maker = Pool(mod, site, rt)
        cases = [maker.gen(rp["seed"], i, rp["tier"]) for i in rp["history"]]
        maker.close()
        for c in cases:
            r = pool.run(c)
            if r["v"]:
                break
    elif rp["key"].startswith("nondeterministic"):
        r = pool.run(rp["case"])
        other = Pool(mod, site, rt, hashseed="4242")
        for _ in range(8):
            q = other.run(rp["case"], fresh=True)
            if q["d"] != r["d"]:
                r["v"] = rp["violation"]
        other.close()
    else:
        r = pool.run(rp["case"], fresh=True)
    pool.close()
    if r["v"]:
        print(f"VIOLATION property={rp['property']} replay={path}")
        print(f"  {key_of(r['v'])}")
        print("  " + r["v"]["detail"].strip().replace("\n", "\n  "))
        return 1
    print("the replayed execution satisfies the property")
    return 0


def evidence(mod, prop, tier, seed, res, n, t_build, t_sim, wall, sample, mismatches, ncorp,
             new, seen_known):
    st = {}
    sigs = set()
    nontrivial = 0
    for r in res.values():
        for k, x in r["st"].items():
            st[k] = st.get(k, 0) + x
        if r["n"]:
            nontrivial += 1
            sigs.add(r["sig"])
    samples = []
    for i in sorted(res):
        if res[i]["n"] and "case" in res[i] and len(samples) < 3:
            c = json.dumps(res[i]["case"])
            samples.append({"run": i, "case": c if len(c) < 1500 else c[:1500] + "...",
                            "digest": res[i]["d"]})
    faults = {k[6:]: x for k, x in sorted(st.items()) if k.startswith("fault:")}
    ops = {k[3:]: x for k, x in sorted(st.items()) if k.startswith("op:")}
    other = {k: x for k, x in sorted(st.items()) if not k.startswith(("fault:", "op:"))}
    cov = {
        "evaluations": len(res),
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples,
        "runs_requested": n,
        "nontrivial_runs": nontrivial,
        "runs_per_hour": round(len(res) / t_sim * 3600) if t_sim > 0 else 0,
        "seeds_per_hour": round(len(res) / t_sim * 3600) if t_sim > 0 else 0,
        "simulated_time": "logical steps only: ufunclab reads no clock and sets no timer; "
                          f"{st.get('steps', 0)} scheduler/delivery/callback steps simulated",
        "faults_injected": faults,
        "operations": ops,
        "probes": other,
        "distinct_measure": getattr(mod, "MEASURE", "hash of the executed schedule and outcome"),
        "determinism_recheck": {"runs": len(sample), "mismatches": len(mismatches)},
        "corpus_cases": ncorp,
        "components_real": getattr(mod, "REAL", ""),
        "components_stubbed": getattr(mod, "STUB", ""),
        "build_s": round(t_build, 1),
        "sim_wall_s": round(t_sim, 1),
        "new_violation_keys": sorted(new),
        "known_findings_seen": sorted(seen_known),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
                   "coverage": cov, "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2),
                   "violations": len(new)}, f, indent=1)


def main(argv):
    try:
        if argv[0] == "--replay":
            return replay(argv[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(argv) > 1:
            tier = argv[1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        t = time.monotonic()
        rc = check(argv[0], tier, seed)
        print(f"{argv[0]}: tier={tier} seed={seed} {'ok' if rc == 0 else 'VIOLATED'} "
              f"({time.monotonic() - t:.1f} s)")
        return rc
    except build.BuildError as e:
        print(f"check error: {e}", file=sys.stderr)
        return 3
    except HarnessError as e:
        print(f"check error in the harness:\n{e}", file=sys.stderr)
        return 3
