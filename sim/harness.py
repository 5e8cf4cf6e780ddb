"""Run context handed to property modules, and the worker process main loop."""

import hashlib
import json
import os
import random
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, cls, detail, **extra):
        super().__init__(detail)
        self.cls, self.detail, self.extra = cls, detail, extra


class Skip(Exception):
    """The run could not be judged (for instance a near-tie in the reference model)."""


class Ambiguous(Exception):
    """The reference model cannot decide (a near-tie)."""


class Ctx:
    """One run: makes disks, runs lives, accumulates what happened."""

    def __init__(self, base):
        self.base = base
        self.n = 0
        self.stats = {
            "lives": 0, "engine_steps": 0, "disk_ops": 0, "reactor_time_s": 0.0,
            "clock_s": 0.0, "sched_decisions": 0, "fired": {}, "probes": {}, "ends": {},
        }
        self.digest = hashlib.sha256()
        self.trace = []
        self.interleavings = set()
        self.disks = []

    def disk(self):
        from .proc import Disk

        d = Disk(os.path.join(self.base, f"d{self.n}"))
        self.n += 1
        self.disks.append(d)
        return d

    def clone(self, d):
        c = d.clone_to(os.path.join(self.base, f"d{self.n}"))
        self.n += 1
        self.disks.append(c)
        return c

    @property
    def scratch(self):
        return os.path.join(self.base, "ref")

    def live(self, disk, ops, cfg=None, note=""):
        from .proc import live

        L = live(disk, ops, cfg)
        st = self.stats
        st["lives"] += 1
        c = L.counters
        st["engine_steps"] += c.get("nsteps", 0)
        st["disk_ops"] += c.get("nops", 0)
        st["reactor_time_s"] += c.get("sim_time", 0.0)
        st["clock_s"] += c.get("clock_ns", 0) / 1e9
        st["sched_decisions"] += len(L.choices)
        if L.end.startswith("signal") and any(".h5 " in l and l.endswith("ERR") for l in L.log.splitlines()):
            # the HDF5 library itself crashes when closing a file it could not write: a process death
            L.end = "killed"
            self.probe("hdf5-crash-on-full-disk")
        st["ends"][L.end] = st["ends"].get(L.end, 0) + 1
        for k, v in L.fired.items():
            name = self._fault_name(k, cfg or {})
            st["fired"][name] = st["fired"].get(name, 0) + v
        if c.get("kills"):
            st["fired"]["worker-killed"] = st["fired"].get("worker-killed", 0) + c["kills"]
        if L.choices:
            self.interleavings.add(hashlib.sha1(bytes(str(L.choices), "ascii")).hexdigest()[:16])
        rec = {
            "end": L.end,
            "res": [
                {"exc": r["exc"], "msg": r["msg"]} if "exc" in r else
                hashlib.sha1(json.dumps(r["ok"], sort_keys=True).encode()).hexdigest()[:12]
                for r in L.results
            ],
            "ops": c.get("nops", 0), "steps": c.get("nsteps", 0),
            "choices": hashlib.sha1(str(L.choices).encode()).hexdigest()[:12],
            "log": hashlib.sha1(self._canon(L.log).encode()).hexdigest()[:12],
        }
        self.digest.update(json.dumps(rec, sort_keys=True).encode())
        if len(self.trace) < 40:
            self.trace.append(dict(rec, note=note, events=L.events[:4], tail=L.log.splitlines()[-4:]))
        if L.end == "walltimeout":
            # real time only guards the machine; it never decides a verdict
            raise Skip("wall-clock guard: a simulated process was too slow " + note)
        return L

    @staticmethod
    def _canon(log):
        return log

    @staticmethod
    def _fault_name(k, cfg):
        if str(k).startswith("disk"):
            try:
                f = cfg["disk"][int(str(k)[4:])]
                return f"disk-{f['action']}" + (f"-{f['errno']}" if f.get("errno") else "")
            except (KeyError, IndexError, ValueError):
                return "disk"
        if k == "line":
            return "line-" + cfg.get("line_fault", {}).get("exc", "?")
        try:
            f = cfg["engine"][int(k)]
            return f"engine-{f['kind']}-{f.get('exc', 'cantera').rstrip('-.0123456789')}"
        except (KeyError, IndexError, ValueError, TypeError):
            return "engine" if str(k).isdigit() else str(k)

    def probe(self, name, n=1):
        self.stats["probes"][name] = self.stats["probes"].get(name, 0) + n

    def close(self):
        import shutil

        shutil.rmtree(self.base, ignore_errors=True)


def load(prop):
    import importlib

    return importlib.import_module(f"sim.props.{prop.lower()}")


def execute(prop, scn, base):
    """Run one scenario; returns a JSON-able record."""
    mod = load(prop)
    ctx = Ctx(base)
    t0 = time.monotonic()
    rec = {"violation": None, "skip": None, "harness": None}
    try:
        out = mod.run(scn, ctx) or {}
        rec["key"] = out.get("key")
        rec["nontrivial"] = bool(out.get("nontrivial", True))
        rec["resolved"] = out.get("resolved", scn)
        rec["sample"] = out.get("sample")
        rec["signature"] = out.get("signature")
    except Violation as v:
        rec["violation"] = {"class": v.cls, "detail": v.detail}
        rec["resolved"] = v.extra.get("resolved", scn)
        rec["known_key"] = v.extra.get("known_key")
    except Skip as s:
        rec["skip"] = str(s)
    except BaseException:
        rec["harness"] = traceback.format_exc()
    rec["stats"] = ctx.stats
    rec["digest"] = ctx.digest.hexdigest()
    rec["interleavings"] = sorted(ctx.interleavings)
    rec["trace"] = ctx.trace if (rec["violation"] or rec["harness"]) else []
    rec["wall"] = time.monotonic() - t0
    ctx.close()
    return rec


def worker_loop():
    """Interpreter process: read scenarios from stdin, write records to the real stdout."""
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    if not os.environ.get("SIM_DEBUG"):
        os.dup2(null, 2)
    inp = os.fdopen(os.dup(0), "r")
    os.dup2(null, 0)
    home = sys.argv[1]
    from .boot import boot

    boot(os.path.join(home, "home"))
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    n = 0
    for line in inp:
        job = json.loads(line)
        n += 1
        scn = job["scn"]
        if scn is None:
            # the one place where the seed turns into choices
            rng = random.Random(f"{job['seed']}/{job['prop']}/{job['i']}")
            scn = load(job["prop"]).gen(rng, job["i"], job["tier"])
            scn["hashseed"] = job["i"] % 4
            scn = json.loads(json.dumps(scn))
        rec = execute(job["prop"], scn, os.path.join(home, f"run{n}"))
        rec["i"] = job["i"]
        rec["scn"] = scn
        out.write(json.dumps(rec) + "\n")
        out.flush()
    os._exit(0)

