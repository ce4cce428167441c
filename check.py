#!/usr/bin/env python3
"""Deterministic simulation checks for fimex.

  check.py PROPERTY [--tier quick|thorough] [--seconds S]   decide one property
  check.py replay FILE [-v]                                  reproduce a recorded violation
  check.py build                                             build the simulator from /repo
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import simbuild  # noqa: E402

REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
PROPS = {p["id"]: p for p in map(json.loads, filter(str.strip, open(os.path.join(HERE, "properties.jsonl"))))}
INFO = json.load(open(os.path.join(HERE, "checks.json")))
TIME = {"quick": float(os.environ.get("VERIF_QUICK_SECONDS", "60")), "thorough": float(os.environ.get("VERIF_THOROUGH_SECONDS", "700"))}


def scratch_dir():
    for base in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 300 << 20 and os.access(base, os.W_OK):
                return tempfile.mkdtemp(prefix="simfimex.", dir=base)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="simfimex.")


def write_plan(path, v, preempts, faults, explicit=True):
    with open(path, "w") as f:
        f.write("property %s\nscenario %s\nseed %d\nsched_seed %d\nstrategy %d\n" % (v["property"], v["scenario"], v["seed"], v["sched_seed"], v["strategy"]))
        if explicit:
            f.write("replay_sched 1\nfaults_given 1\n")
            for a, t in preempts:
                f.write("preempt %d %d\n" % (a, t))
            for k in faults:
                f.write("fault %d %d %d %d\n" % tuple(k))
        f.write("# violation %s: %s\n" % (v["cls"], v["msg"].replace("\n", " ")))


def run_one(exe, scratch, plan, timeout=130):
    try:
        r = subprocess.run([exe, "one", "--scratch", scratch, "--replay", plan], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, text=True, errors="replace")
        return json.loads(r.stdout.strip().split("\n")[-1])  # the library may print before
    except (subprocess.TimeoutExpired, ValueError):
        return None


def same(a, v):
    return a is not None and a["violation"] and a["cls"] == v["cls"]


def ddmin(items, test, deadline):
    """smallest sublist found for which test(sublist) is true"""
    n = 2
    items = list(items)
    if items and test([]):
        return []
    while len(items) >= 2 and time.time() < deadline:
        chunk = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.time() < deadline:
            rest = items[:i] + items[i + chunk:]
            if test(rest):
                items = rest
                n = max(n - 1, 2)
                reduced = True
            else:
                i += chunk
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    return items


def symbolise(exe, text):
    def rep(m):
        try:
            o = subprocess.run(["addr2line", "-Cfs", "-e", exe, m.group(1)], stdout=subprocess.PIPE, text=True, timeout=60).stdout.split("\n")
            return "%s (%s)" % (o[0], o[1])
        except Exception:
            return m.group(0)
    return re.sub(r"pc=([0-9a-f]+)", rep, text)


def confirm(exe, v, scratch, on_repeat):
    """gate: the same seed fails again, an explicit schedule+fault file fails in fresh processes; then minimise"""
    tmp = os.path.join(scratch, "plan.txt")
    sub = os.path.join(scratch, "c00")
    write_plan(tmp, v, [], [], explicit=False)
    a = run_one(exe, sub, tmp)
    if not same(a, v) or a["hash"] != v["hash"]:
        return None
    on_repeat()
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(REPLAYS, "%s-%s-%d.txt" % (v["property"], v["scenario"], v["seed"]))
    pre, flt = [tuple(x) for x in a["trace"]], a["faults"]
    write_plan(tmp, v, pre, flt)
    b = run_one(exe, sub, tmp)
    if not same(b, v):
        # schedule trace too long for an explicit file: the seed itself is the replay
        write_plan(out, v, [], [], explicit=False)
        return out, a
    deadline = time.time() + 60

    def t_pre(p):
        write_plan(tmp, v, p, flt)
        return same(run_one(exe, sub, tmp), v)
    pre = ddmin(pre, t_pre, deadline)

    def t_flt(f):
        write_plan(tmp, v, pre, f)
        return same(run_one(exe, sub, tmp), v)
    flt = ddmin(flt, t_flt, deadline + 20)
    write_plan(out, v, pre, flt)
    c, d = run_one(exe, sub, out), run_one(exe, sub, out)
    if same(c, v) and same(d, v) and c["hash"] == d["hash"]:
        return out, c
    write_plan(out, v, [], [], explicit=False)
    return out, a


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == prop]


class Worker:
    def __init__(self, exe, prop, seed, idx, n, seconds, scratch, known):
        self.vs, self.s, self.nondet, self.known_hits = [], None, [], 0
        self.known = known
        self.dir = os.path.join(scratch, "w%02d" % idx)
        self.hashes = os.path.join(scratch, "h%d" % idx)
        # worker directories are named alike so that the run does not depend on the worker
        cmd = [exe, "batch", "--prop", prop, "--seed", str(seed), "--start", str(idx), "--stride", str(n), "--seconds", str(seconds), "--scratch", self.dir, "--hashes", self.hashes,
               "--max-violations", "1000000" if known else "20"]
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        self.err = ""
        self.t = threading.Thread(target=self.read)
        self.t.start()
        self.t2 = threading.Thread(target=self.rerr)
        self.t2.start()

    def rerr(self):
        self.err = self.p.stderr.read()[-2000:]

    def read(self):
        for line in self.p.stdout:
            if line.startswith("V "):
                v = json.loads(line[2:])
                if any((k.get("scenario") in (None, v["scenario"])) and k["cls"] == v["cls"] and re.search(k["match"], v["msg"]) for k in self.known):
                    self.known_hits += 1
                else:
                    self.vs.append(v)
            elif line.startswith("S "):
                self.s = json.loads(line[2:])
            elif line.startswith("N "):
                self.nondet.append(line[2:].strip())

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass


def merge(d, o):
    for k, n in o.items():
        d[k] = d.get(k, 0) + n


def check(prop, tier, seconds=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    info = INFO[prop]
    if seconds is None:
        seconds = TIME[tier] * info.get("time_factor", 1.0)
    try:
        exe = simbuild.build()
    except simbuild.BuildError as e:
        print("BUILD ERROR\n%s" % e)
        return 2
    tb = time.time() - t0
    known = known_findings(prop)
    scratch = scratch_dir()
    n = os.cpu_count() or 8
    workers = []
    try:
        t1 = time.time()
        workers = [Worker(exe, prop, seed, i, n, seconds, scratch, known) for i in range(n)]
        limit = t1 + seconds + 240
        result, found, unconfirmed = None, [], []
        while time.time() < limit and not result:
            alive = any(w.t.is_alive() for w in workers)
            news = [w.vs.pop(0) for w in workers if w.vs]
            for v in news:
                if len(found) >= 40:
                    break
                found.append(v)
                c = confirm(exe, v, scratch, lambda: [w.kill() for w in workers])
                if c:
                    result = (v, c)
                    break
                unconfirmed.append("%s seed=%d %s: %s" % (v["scenario"], v["seed"], v["cls"], v["msg"]))
            if not alive and not news:
                break
            time.sleep(0.1)
        for w in workers:
            w.kill() if result or time.time() >= limit else None
        for w in workers:
            w.t.join()
        crashed = [w for w in workers if w.s is None and not found]
        agg = {"runs": 0, "nontrivial": 0, "switches": 0, "steps": 0, "accesses": 0, "simtime_us": 0, "rechecks": 0, "nondet": 0}
        fired, probes, per, strat, samples, slow = {}, {}, {}, {}, [], 0
        races = set()
        for w in workers:
            if not w.s:
                continue
            for k in agg:
                agg[k] += w.s[k]
            merge(fired, w.s["fired"])
            merge(probes, w.s["probes"])
            merge(per, w.s["scenarios"])
            merge(strat, w.s["strategies"])
            races.update(map(tuple, w.s["races"]))
            samples += w.s["samples"]
            slow = max(slow, w.s["slowest"])
        hs = set()
        for w in workers:
            try:
                b = open(w.hashes, "rb").read()
                hs.update(b[i:i + 8] for i in range(0, len(b), 8))
            except OSError:
                pass
        wall = time.time() - t1
        evaluations = agg["runs"] if agg["runs"] else len(found)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": info.get("level", "exploration"),
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(hs) if hs else len(found),
                "rule": "one evaluation = one simulated run (fresh process image, seeded workload, schedule and fault plan); non-trivial = at least one thread switch or injected fault took effect; distinct by hash of the complete event log (schedule decisions, locks, library calls, I/O, faults)",
                "samples": samples[:6] or [v["sample"] for v in found][:3],
                "runs_per_hour": int(evaluations / max(wall, 0.1) * 3600),
                "seeds": "VERIF_SEED=%d, run i uses workload seed %d*1000003+i" % (seed, seed),
                "simulated_time_s": round(agg["simtime_us"] / 1e6, 3),
                "scheduling_decisions": agg["steps"], "thread_switches": agg["switches"], "instrumented_accesses": agg["accesses"],
                "faults_injected": fired, "probes": probes, "runs_per_scenario": per, "runs_per_strategy": strat,
                "determinism_rechecks": agg["rechecks"], "nondeterministic": agg["nondet"],
                "unordered_access_pairs_seen": len(races),
                "slowest_run_s": slow,
                "real_components": info["real"], "stubbed_components": info["stub"],
                "known_finding_hits": sum(w.known_hits for w in workers),
                "unconfirmed": unconfirmed,
            },
            "assumptions": info.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": 1 if result else 0,
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        print("%s %s: build %.0fs, %d runs (%d distinct) in %.0fs, %d switches, faults %s" % (prop, tier, tb, agg["runs"], len(hs), wall, agg["switches"], fired))
        if races and os.environ.get("VERIF_RACES"):
            for a, b in sorted(races):
                print("  race: " + symbolise(exe, "pc=%x pc=%x" % (a, b)))
        if agg["nondet"]:
            print("nondeterministic runs: %s" % [x for w in workers for x in w.nondet][:5])
        for u in unconfirmed:
            print("unconfirmed (not reproducible, ignored): " + u)
        if result:
            v, (path, final) = result
            print("violated: %s" % PROPS[prop]["title"])
            print("%s in scenario %s, seed %d: %s" % (final["cls"], v["scenario"], v["seed"], symbolise(exe, final["msg"])))
            print("case: %s" % final["sample"])
            print("replay file (schedule and faults):\n  " + "\n  ".join(open(path).read().strip().split("\n")[:60]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if crashed or not agg["runs"]:
            print("ERROR: %d workers gave no summary: %s" % (len(crashed), crashed[0].err if crashed else ""))
            return 2
        return 0
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path, verbose):
    exe = simbuild.build()
    scratch = scratch_dir()
    try:
        r = subprocess.run([exe, "one", "--scratch", scratch, "--replay", path] + (["-v"] if verbose else []), stdout=subprocess.PIPE, text=True)
        v = json.loads(r.stdout.strip().split("\n")[-1])
        print(json.dumps(v, indent=1) if verbose else "%s %s" % (v["cls"], symbolise(exe, v["msg"])))
        if v["violation"]:
            print("VIOLATION property=%s replay=%s" % (v["property"], path))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "build":
        try:
            print(simbuild.build(True))
            return 0
        except simbuild.BuildError as e:
            print(e)
            return 2
    if a[0] == "replay":
        return replay(a[1], "-v" in a)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seconds = float(a[a.index("--seconds") + 1]) if "--seconds" in a else None
    return check(a[0], tier, seconds)


if __name__ == "__main__":
    sys.exit(main())
