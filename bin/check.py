#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: seeded simulation of one property.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: error of the check.
"""
import json
import os
import re
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS

VERIF = build.VERIF
NW = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))


def die(msg):
    sys.stdout.flush()
    sys.stderr.write("check error: %s\n" % msg)
    sys.exit(2)


def wrap(cmd):
    # the same addresses in every process: a run depends on its seed alone
    return ["setarch", "-R"] + cmd if ASLR_OFF else cmd


def aslr_off():
    try:
        return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


ASLR_OFF = aslr_off()


class Worker:
    def __init__(self, cmd, env):
        self.p = subprocess.Popen(wrap(cmd), stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True)
        self.viol, self.samples, self.summary, self.digests = [], [], None, []
        self.err = ""
        self.t = threading.Thread(target=self._read)
        self.t.start()
        self.te = threading.Thread(target=self._read_err)
        self.te.start()

    def _read_err(self):
        self.err = self.p.stderr.read()[-2000:]

    def _read(self):
        for line in self.p.stdout:
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if "summary" in o:
                self.summary = o
            elif "sample" in o:
                self.samples.append(o)
            elif "digest" in o and "run" not in o:
                self.digests.append(o["digest"])
            elif o.get("status") == 2:
                self.viol.append(o)

    def kill(self):
        import signal
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass


def explore(exe, prop, base, seconds, maxruns, env, stop_on_violation=True, digests=False, nw=None, first=0):
    nw = nw or NW
    ws = []
    for w in range(nw):
        n = maxruns // nw + (1 if w < maxruns % nw else 0)
        cmd = exe + ["explore", prop, str(base), str(first + w), str(nw), str(n), str(seconds)]
        if digests:
            cmd.append("digests")
        ws.append(Worker(cmd, env))
    grace = None
    hard = time.time() + seconds + 120
    while any(w.p.poll() is None for w in ws):
        time.sleep(0.05)
        if stop_on_violation and grace is None and any(w.viol for w in ws):
            grace = time.time() + 1.0
        if (grace and time.time() > grace) or time.time() > hard:
            for w in ws:
                w.kill()
            break
    for w in ws:
        w.t.join()
        w.te.join()
        w.p.wait()
    return ws


class Replayer:
    """persistent process replaying choice lists (each run is its own forked child)"""

    def __init__(self, exe, prop, env):
        self.p = subprocess.Popen(wrap(exe + ["replay", prop]), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def __call__(self, choices):
        self.p.stdin.write(" ".join(map(str, choices)) + "\n")
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                return None
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if "status" in o:
                return o

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def run_seed(exe, prop, seed, env):
    r = subprocess.run(wrap(exe + ["seed", prop, str(seed)]), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    for line in r.stdout.splitlines():
        try:
            o = json.loads(line)
        except ValueError:
            continue
        if "status" in o:
            return o
    return None


def minimise(exe, prop, v, env, budget):
    """shrinks the choice list while the same violation class persists"""
    t_end = time.time() + budget
    rp = Replayer(exe, prop, env)
    cls = v["cls"]
    best = rp(v["choices"])
    evals = 1
    if not best or best["status"] != 2 or best["cls"] != cls:
        rp.close()
        return None, evals

    def try_(c):
        nonlocal best, evals
        if time.time() > t_end:
            return False
        evals += 1
        o = rp(c)
        if o is None:
            raise RuntimeError("replay process ended")
        if o["status"] == 2 and o["cls"] == cls and (len(o["choices"]), sum(o["choices"])) < (len(best["choices"]), sum(best["choices"])):
            # the run may have used fewer choices than it was given
            best = o
            return True
        return False

    # truncate at the tail first
    c = best["choices"]
    changed = True
    while changed and time.time() < t_end:
        changed = False
        # drop whole spans, large and shallow first
        spans = sorted(best["spans"], key=lambda s: (s[2], -(s[1] - s[0])))
        for b, e, _ in spans:
            c = best["choices"]
            if e > len(c):
                continue
            if try_(c[:b] + c[e:]):
                changed = True
                break
        if changed:
            continue
        c = best["choices"]
        k = max(1, len(c) // 2)
        while k >= 1 and not changed:
            i = len(c) - k
            while i >= 0:
                if try_(c[:i] + c[i + k:]):
                    changed = True
                    break
                i -= k
            k //= 2
            if time.time() > t_end:
                break
    # lower the remaining integers
    i = 0
    while i < len(best["choices"]) and time.time() < t_end:
        c = list(best["choices"])
        if c[i] > 0:
            for nv in sorted({0, c[i] // 2, c[i] - 1}):
                d = list(c)
                d[i] = nv
                if try_(d):
                    break
        i += 1
    rp.close()
    return best, evals


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


def is_known(v, known):
    for k in known:
        if k["class"] == v["cls"] and re.search(k["match"], v["msg"]):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    try:
        exe = build.TARGETS[cfg["target"]]()
    except build.BuildError as e:
        die("build failed:\n%s" % e)
    if isinstance(exe, str):
        exe = [exe]
    t_build = time.time() - t0
    env = dict(os.environ)
    env.update(cfg.get("env", {}))
    env["PYTHONHASHSEED"] = "0"
    env["MALLOC_ARENA_MAX"] = "1"
    if tier == "thorough":
        seconds, runs = cfg.get("thorough_s", 600), cfg.get("thorough_runs", 10 ** 9)
    else:
        seconds, runs = cfg.get("quick_s", 40), cfg.get("quick_runs", 10 ** 9)
    if os.environ.get("VERIF_SECONDS"):
        seconds = float(os.environ["VERIF_SECONDS"])
    print("%s %s seed=%d: build %.1f s, exploring for up to %g s on %d workers" % (prop, tier, seed, t_build, seconds, NW), flush=True)

    # determinism gate on this tree: the same seeds twice, at two worker counts
    n_det = cfg.get("det_runs", 24)
    t1 = time.time()
    d1 = sorted(x for w in explore(exe, prop, seed, 20, n_det, env, False, True, NW, 0) for x in w.digests)
    d2 = sorted(x for w in explore(exe, prop, seed, 20, n_det, env, False, True, max(1, NW // 2 - 1), 0) for x in w.digests)
    m1, m2 = dict(x.split() for x in d1), dict(x.split() for x in d2)
    common = set(m1) & set(m2)
    diverged = [s for s in common if m1[s] != m2[s]]
    t_det = time.time() - t1

    t1 = time.time()
    ws = explore(exe, prop, seed, seconds, runs, env)
    t_exp = time.time() - t1
    viol = [v for w in ws for v in w.viol]
    for w in ws:
        if w.summary is None and not viol:
            die("a worker ended without a summary (%s): %s" % (w.p.returncode, w.err))
    agg = {"runs": 0, "nontrivial": 0, "steps": 0}
    counters, faults, feats, sigs = {}, {}, set(), set()
    for w in ws:
        s = w.summary
        if not s:
            continue
        for k in agg:
            agg[k] += s[k]
        for k, n in s["counters"].items():
            counters[k] = counters.get(k, 0) + n
        for k, n in s["faults"].items():
            faults[k] = faults.get(k, 0) + n
        feats.update(s["features"])
        sigs.update(s["sigs"])
    samples = [x for w in ws for x in w.samples][:3]

    known = load_known(prop)
    reported, known_hit, unrepro = None, {}, []
    by_cls = {}
    for v in viol:
        by_cls.setdefault(v["cls"], v)
    for cls, v in sorted(by_cls.items(), key=lambda kv: (len(kv[1]["choices"]), kv[0])):
        a, b = run_seed(exe, prop, v["run"], env), run_seed(exe, prop, v["run"], env)
        if not a or not b or a["status"] != 2 or b["status"] != 2 or a["cls"] != b["cls"]:
            unrepro.append(v)
            continue
        m, evals = minimise(exe, prop, a, env, cfg.get("min_s", 30))
        if m is None:
            unrepro.append(v)
            continue
        k = is_known(m, known)
        if k:
            known_hit[k["what"]] = k
            continue
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s-%s-%d.json" % (prop, cls, v["run"]))
        rep = {"property": prop, "target": cfg["target"], "class": m["cls"], "message": m["msg"], "seed": v["run"], "choices": m["choices"], "digest": m["digest"], "trace": m["log"].splitlines(), "faults": m.get("faults", {}), "original_choices": len(v["choices"]), "minimiser_evaluations": evals,
               "replay_with": "python3 %s/bin/replay.py %s" % (VERIF, path)}
        # fresh-process replay must reproduce it exactly, twice
        ok = True
        for _ in range(2):
            rp = Replayer(exe, prop, env)
            o = rp(m["choices"])
            rp.close()
            if not o or o["status"] != 2 or o["cls"] != m["cls"]:
                ok = False
            elif o["digest"] != m["digest"]:
                # the code under test itself is not a function of its inputs
                # (reads memory it does not own): same violation, other bytes
                rep["note"] = "the violation repeats; the bytes read by the code under test differ between processes"
        if not ok:
            unrepro.append(v)
            continue
        json.dump(rep, open(path, "w"), indent=1)
        reported = (path, m)
        break
    if diverged and not reported:
        # a violation that was reproduced stands on its own; otherwise this is an error of the check
        die("the simulation is not deterministic on this tree: seeds %s" % diverged[:5])

    for w in known:
        if w.get("always_print", True):
            print("KNOWN-FINDING: property=%s %s" % (prop, w["what"]))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(sigs),
        "rule": cfg["rule"],
        "samples": [{"seed": s["seed"], "trace": s["sample"].splitlines()[:40]} for s in samples],
        "simulated_runs_per_hour": int(agg["runs"] / t_exp * 3600) if t_exp > 0 else 0,
        "seeds": {"VERIF_SEED": seed, "per_run": "mix(VERIF_SEED, index)", "indices": agg["runs"], "seeds_per_hour": int(agg["runs"] / t_exp * 3600) if t_exp > 0 else 0},
        "simulated_steps": agg["steps"],
        "simulated_time": cfg.get("time_note", "logical: %d simulated steps; the code has no clock" % agg["steps"]),
        "faults_injected": faults,
        "reach": counters,
        "distinct_states": len(feats),
        "distinct_states_measure": cfg["feature"],
        "determinism": {"seeds_run_twice": len(common), "worker_counts": [NW, max(1, NW // 2 - 1)], "diverged": len(diverged), "seconds": round(t_det, 1), "address_randomisation_off": ASLR_OFF},
        "real_components": cfg["real"],
        "stub_components": cfg["stub"],
        "build_s": round(t_build, 1),
        "known_findings_listed": len(known),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "assumptions": cfg["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if reported else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    if reported:
        path, m = reported
        print("%s: %s" % (m["cls"], m["msg"]))
        print("minimised history (%d choices):" % len(m["choices"]))
        for line in m["log"].splitlines()[-25:]:
            print("  " + line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if unrepro:
        die("a violation did not reproduce: %s" % [(v["cls"], v["run"], v["msg"][:200]) for v in unrepro][:3])
    zero = [p for p in cfg.get("must_reach", []) if not counters.get(p) and not faults.get(p)]
    if zero and agg["runs"] > 2000:
        print("note: probes at zero: %s" % zero)
    print("%s held on %d runs (%d distinct non-trivial, %d states, faults %s) in %.1f s" % (prop, agg["runs"], len(sigs), len(feats), faults, time.time() - t0))


if __name__ == "__main__":
    main()
