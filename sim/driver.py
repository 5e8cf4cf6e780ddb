"""Seeded search over runs of one property, minimisation, replay files and evidence."""

import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("SIM_PYTHON") or (
    "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
)
COMPONENTS_REAL = (
    "all of /repo/src/pymars; Cantera 3.2 kinetics, thermo, CVODES integration and YAML writer; "
    "SciPy root finder; HDF5/h5py; NumPy text I/O; networkx; kernel file system (tmpfs)"
)
COMPONENTS_STUB = (
    "process pools (forked workers, seeded scheduler); 1-D flame Newton solve (closed-form stub) "
    "unless the run says otherwise; wall clock; entropy; CPU count"
)


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 256 << 20:
                return d
    return tempfile.gettempdir()


class Interp:
    """One persistent interpreter under the seams."""

    def __init__(self, home, hashseed, session=True):
        from . import simio

        self.home = home
        self.hashseed = hashseed
        env = {
            k: v for k, v in os.environ.items()
            if k in ("PATH", "HOME", "LANG", "LC_ALL", "PYMARS_SRC", "SIM_DEBUG", "VERIF_TIER")
        }
        env.update(
            LD_PRELOAD=simio.SO, PYTHONHASHSEED=str(hashseed), OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONPATH=VERIF,
            PYTHONDONTWRITEBYTECODE="1", HDF5_USE_FILE_LOCKING="FALSE", TZ="UTC",
        )
        os.makedirs(home, exist_ok=True)
        self.p = subprocess.Popen(
            [PY, "-m", "sim.worker", home], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            env=env, text=True, cwd=VERIF, start_new_session=session,
            stderr=None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL,
        )
        self.lock = threading.Lock()
        self.ready = False

    def wait_ready(self):
        if not self.ready:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("interpreter failed to start (is pymars importable?)")
            self.ready = True

    def run(self, prop, i, scn=None, seed=None, tier=None):
        """Execute a given scenario, or (scn None) the one generated from seed, property and i."""
        self.wait_ready()
        self.p.stdin.write(
            json.dumps({"prop": prop, "i": i, "scn": scn, "seed": seed, "tier": tier}) + "\n"
        )
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("interpreter died")
        return json.loads(line)

    def close(self):
        import signal

        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


def fresh_run(prop, scn, root, hashseed, tag):
    it = Interp(os.path.join(root, tag), hashseed)
    try:
        return it.run(prop, 0, scn)
    finally:
        it.close()
        shutil.rmtree(os.path.join(root, tag), ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def merge(total, st):
    for k, v in st.items():
        if isinstance(v, dict):
            d = total.setdefault(k, {})
            for a, b in v.items():
                d[a] = d.get(a, 0) + b
        else:
            total[k] = total.get(k, 0) + v


def main(prop, tier, seed):
    from . import simio
    from .harness import load

    t_start = time.monotonic()
    simio.build()
    mod = load(prop)
    budget = mod.BUDGET[tier]
    nruns = int(os.environ.get("SIM_RUNS") or budget["runs"])
    deadline = t_start + budget.get("deadline", 420 if tier == "quick" else 3600)
    workers = int(os.environ.get("SIM_WORKERS") or min(8, os.cpu_count() or 1))
    root = tempfile.mkdtemp(prefix=f"sim-{prop}-", dir=scratch_root())
    try:
        return _main(mod, prop, tier, seed, nruns, deadline, workers, root, t_start)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(mod, prop, tier, seed, nruns, deadline, workers, root, t_start):
    jobs = [queue.Queue() for _ in range(4)]  # one per hash seed; run i always uses i % 4
    for i in range(nruns):
        jobs[i % 4].put(i)
    recs = {}
    errors = []
    stop = threading.Event()
    halted = threading.Event()
    interps = []

    def loop(w):
        # each interpreter serves runs of one hash seed; a run names the one it needs
        pool = {}
        try:
            while not stop.is_set() and time.monotonic() < deadline:
                for q in range(4):
                    try:
                        i = jobs[(w + q) % 4].get_nowait()
                        break
                    except queue.Empty:
                        pass
                else:
                    return
                hs = i % 4
                it = pool.get(hs)
                if it is None:
                    it = pool[hs] = Interp(os.path.join(root, f"w{w}h{hs}"), hs)
                    interps.append(it)
                rec = it.run(prop, i, None, seed, tier)
                recs[i] = rec
                if rec["violation"] and not known(rec):
                    if os.environ.get("SIM_ALL"):
                        # survey: report every violation, go on
                        print(f"run {i}: {rec['violation']['class']}: {str(rec['violation'])[:400]}", flush=True)
                    else:
                        stop.set()
        except Exception as e:  # noqa: BLE001
            if halted.is_set():
                return
            errors.append(f"{type(e).__name__}: {e}")
            stop.set()

    findings = [k for k in load_known() if k.get("property") == prop and k.get("status") == "open"]

    def known(rec):
        for k in findings:
            if k.get("class") == rec["violation"]["class"] and k.get("key") == rec.get("known_key"):
                return k
        return None

    threads = [threading.Thread(target=loop, args=(w,), daemon=True) for w in range(workers)]
    for t in threads:
        t.start()
    # runs still going long after the end of the search are given up
    while any(t.is_alive() for t in threads):
        for t in threads:
            t.join(0.2)
        if stop.is_set() or time.monotonic() > deadline:
            end = time.monotonic() + (30 if stop.is_set() else 120)
            for t in threads:
                t.join(max(0.0, end - time.monotonic()))
            break
    halted.set()
    for it in list(interps):
        it.close()
    for t in threads:
        t.join(5)

    if os.environ.get("SIM_SLOW"):
        slow = sorted(((r["wall"], i) for i, r in recs.items()), reverse=True)[:10]
        print("slowest", [(round(a, 1), i) for a, i in slow], "sum", round(sum(r["wall"] for r in recs.values())))
    total = {}
    keys, sigs, inter = set(), set(), set()
    skips = {}
    samples = []
    viol = None
    harness = []
    known_hit = {}
    nontrivial = 0
    for i in sorted(recs):
        r = recs[i]
        merge(total, r["stats"])
        inter.update(r["interleavings"])
        if r["harness"]:
            harness.append((i, r["harness"]))
            continue
        if r["skip"]:
            skips[r["skip"].split(":")[0]] = skips.get(r["skip"].split(":")[0], 0) + 1
            continue
        if r["violation"]:
            k = known(r)
            if k:
                known_hit[k["id"]] = k
            elif viol is None:
                viol = i
            continue
        k = json.dumps(r.get("key"), sort_keys=True)
        if r.get("nontrivial") and k not in keys:
            keys.add(k)
            nontrivial += 1
        if r.get("signature"):
            sigs.add(json.dumps(r["signature"], sort_keys=True))
        if len(samples) < 5:
            samples.append(r.get("sample") or r["resolved"])

    wall = time.monotonic() - t_start
    for k in findings:
        # listed findings are reported whether or not this batch ran into them again
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    replay_path = None
    if viol is not None:
        replay_path, rc = report(mod, prop, seed, tier, viol, recs[viol], root, t_start)
    elif errors or harness:
        for e in errors[:3]:
            print("HARNESS-ERROR:", e, file=sys.stderr)
        for i, h in harness[:2]:
            print(f"HARNESS-ERROR in run {i}:\n{h}", file=sys.stderr)
        rc = 2
    elif len(recs) < max(10, 0.2 * nruns):
        print(f"HARNESS-ERROR: only {len(recs)} of {nruns} runs finished in time", file=sys.stderr)
        rc = 2
    elif sum(skips.values()) > 0.6 * nruns:
        print(f"HARNESS-ERROR: too many undecided runs: {skips}", file=sys.stderr)
        rc = 2
    wall = time.monotonic() - t_start
    done = len(recs)
    level = "fault_enumeration" if getattr(mod, "LEVEL", "") == "fault_enumeration" else "exploration"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": done,
            "planned": nruns,
            "distinct_nontrivial": nontrivial,
            "rule": mod.RULE,
            "samples": samples[:4],
            "undecided": skips,
            "runs_per_hour": round(done / max(wall, 1e-6) * 3600),
            "simulated_processes": total.get("lives", 0),
            "lives_by_ending": total.get("ends", {}),
            "engine_steps": total.get("engine_steps", 0),
            "durable_disk_operations": total.get("disk_ops", 0),
            "simulated_reactor_time_s": total.get("reactor_time_s", 0.0),
            "simulated_wall_clock_s": round(total.get("clock_s", 0.0), 3),
            "scheduling_decisions": total.get("sched_decisions", 0),
            "distinct_interleavings": len(inter),
            "distinct_state_signatures": len(sigs),
            "faults_fired": total.get("fired", {}),
            "probes": total.get("probes", {}),
            "real_components": COMPONENTS_REAL,
            "stub_components": COMPONENTS_STUB,
            "worker_interpreters": workers,
            "known_findings_hit": sorted(known_hit),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    print(
        f"{prop}: {done} runs, {total.get('lives', 0)} simulated processes, "
        f"{nontrivial} distinct, faults {total.get('fired', {})}, {wall:.1f} s"
        + (f", undecided {skips}" if skips else "")
    )
    return rc


def report(mod, prop, seed, tier, i, rec, root, t_start):
    """Minimise the failing scenario, verify the replay in a fresh process, write the file."""
    cls = rec["violation"]["class"]
    hs = rec["scn"].get("hashseed", 0)
    best, best_rec = rec.get("resolved") or rec["scn"], rec
    best["hashseed"] = hs
    tries = 0
    t_end = time.monotonic() + (90 if tier == "quick" else 400)
    if tier == "quick":
        t_end = min(t_end, t_start + 600)
    if rec["wall"] > 60:
        t_end = 0
    it = Interp(os.path.join(root, "min"), hs)
    try:
        changed = True
        while changed and tries < 80 and time.monotonic() < t_end:
            changed = False
            for cand in getattr(mod, "shrink", lambda s: [])(best):
                if tries >= 80 or time.monotonic() > t_end:
                    break
                tries += 1
                cand["hashseed"] = hs
                try:
                    r = it.run(prop, 0, cand)
                except RuntimeError:
                    it.close()
                    it = Interp(os.path.join(root, f"min{tries}"), hs)
                    continue
                if r["violation"] and r["violation"]["class"] == cls:
                    best, best_rec, changed = r.get("resolved") or cand, r, True
                    break
    finally:
        it.close()
    seen = []
    for cand in (best, rec.get("resolved") or rec["scn"], rec["scn"]):
        cand["hashseed"] = hs
        if cand in seen:
            continue
        seen.append(cand)
        again = fresh_run(prop, cand, root, hs, "replay")
        if again["violation"] and again["violation"]["class"] == cls:
            best, best_rec = cand, again
            break
    else:
        print(
            f"HARNESS-ERROR: run {i} reported {rec['violation']} but did not replay: "
            f"{again['violation'] or again['harness'] or again['skip']}", file=sys.stderr,
        )
        return None, 2
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop, "seed": seed, "run": i, "hashseed": hs, "scenario": best,
                "violation": best_rec["violation"], "digest": best_rec["digest"],
                "minimisation_runs": tries, "trace": best_rec["trace"],
                "how": f"bin/replay {path}",
            }, f, indent=1,
        )
    print(f"run {i}: {best_rec['violation']['class']}: {best_rec['violation']['detail']}")
    print(f"VIOLATION property={prop} replay={path}")
    return path, 1


def replay(path):
    from . import simio

    simio.build()
    with open(path) as f:
        rp = json.load(f)
    root = tempfile.mkdtemp(prefix="sim-replay-", dir=scratch_root())
    try:
        r = fresh_run(rp["property"], rp["scenario"], root, rp["hashseed"], "r")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if r["violation"]:
        same = r["violation"] == rp["violation"] and r["digest"] == rp["digest"]
        print(json.dumps(r["violation"]), "identical" if same else "DIFFERENT from the recorded one")
        print(f"VIOLATION property={rp['property']} replay={path}")
        return 1
    print("no violation:", r["skip"] or r["harness"] or "property held")
    return 0 if not r["harness"] else 2


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))))
