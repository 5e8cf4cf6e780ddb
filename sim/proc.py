"""Lives: one life is one simulated pyMARS process on the run's private disk.

A life is a forked child of the (already imported) interpreter.  It executes a list of
operations through pyMARS's public entry points, reporting each outcome through a pipe as soon
as it is known; killing the child loses its memory and its unflushed buffers and keeps exactly
what the kernel had been given.  Restart is simply another life on the same directory.
"""

import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import simio
from .simpool import MAXSLOTS, Scheduler, harvest_slot
from .world import W, enable_lines

ARENA = None
WALL = 120.0


class HarnessError(Exception):
    """The machinery itself failed; never a verdict about pyMARS."""


def init():
    global ARENA
    ARENA = simio.Arena(MAXSLOTS + 1)
    W.arena = ARENA


class Disk:
    """The private directory of one run."""

    def __init__(self, base):
        self.base = base
        self.cwd = os.path.join(base, "cwd")
        self.tmp = os.path.join(base, "tmp")
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(self.cwd)
        os.makedirs(self.tmp)

    def put(self, name, text):
        p = os.path.join(self.cwd, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w" if isinstance(text, str) else "wb") as f:
            f.write(text)

    def mkdir(self, name):
        os.makedirs(os.path.join(self.cwd, name), exist_ok=True)

    def read(self, name):
        try:
            with open(os.path.join(self.cwd, name), "rb") as f:
                return f.read()
        except OSError:
            return None

    def remove(self, name):
        try:
            os.remove(os.path.join(self.cwd, name))
        except OSError:
            pass

    def files(self):
        out = []
        for top in (self.cwd, self.tmp):
            for d, dirs, names in os.walk(top):
                rel = os.path.relpath(d, self.base)
                out += [os.path.join(rel, n) for n in names]
                out += [os.path.join(rel, n) + "/" for n in dirs]
        return sorted(out)

    def snapshot(self):
        out = {}
        for f in self.files():
            if not f.endswith("/"):
                with open(os.path.join(self.base, f), "rb") as h:
                    out[f] = h.read()
        return out

    def clone_to(self, base):
        d = Disk.__new__(Disk)
        d.base = base
        d.cwd = os.path.join(base, "cwd")
        d.tmp = os.path.join(base, "tmp")
        shutil.rmtree(base, ignore_errors=True)
        shutil.copytree(self.base, base)
        return d

    def destroy(self):
        shutil.rmtree(self.base, ignore_errors=True)


def _disk_planner(disk_faults):
    """Returns a function that loads the disk fault plan of one process role into a slot."""

    def apply(slot, role):
        for i, f in enumerate(disk_faults[:8]):
            if f.get("proc", "main") not in (role, "all"):
                continue
            slot.plan(
                i, f["action"], simio.ERRNO.get(f.get("errno"), 0), f["at"],
                f.get("count", 1), f.get("frac", 500), f.get("mask", 0),
            )

    return apply


class Life:
    """Outcome of one life."""

    def __init__(self):
        self.end = None
        self.results = []
        self.counters = {}
        self.fired = {}
        self.log = ""
        self.choices = []
        self.events = []

    def ok(self, i=-1):
        return self.results and "ok" in self.results[i]

    def value(self, i=-1):
        return self.results[i]["ok"]

    def describe(self):
        if self.results and "exc" in self.results[-1]:
            return f"{self.end}: {self.results[-1]['exc']}: {self.results[-1]['msg'][:160]}"
        return self.end


def live(disk, ops, cfg=None):
    """Run ``ops`` in one simulated process and return its :class:`Life`.

    cfg keys: engine (engine faults), disk (disk faults), sched, cpu_count, start_method,
    entropy, clock (base seconds), clock_jump [at, seconds], step_budget, read_budget,
    op_budget, stub_flame, line_fault, cwd.
    """
    from . import ops as opsmod

    cfg = dict(cfg or {})
    cfg.setdefault("step_budget", 2_000_000)
    cfg.setdefault("read_budget", 200_000)
    cfg.setdefault("op_budget", 1_000_000)
    slot = ARENA.slot(0)
    for i in range(1, MAXSLOTS + 1):
        s = ARENA.slot(i)
        if s.get("nops") or s.get("loglen") or s.get("nsteps"):
            s.reset()
    slot.reset()
    for k in ("step_budget", "read_budget", "op_budget"):
        slot.set(k, cfg[k])
    slot.set("clock_base", int(cfg.get("clock", 1.7e9) * 1e9))
    slot.set("clock_tick", int(cfg.get("clock_tick_ms", 1) * 1e6))
    if cfg.get("clock_jump"):
        slot.set("jump_at", int(cfg["clock_jump"][0]))
        slot.set("jump_ns", int(cfg["clock_jump"][1] * 1e9))
    ent = cfg.get("entropy", 1)
    slot.set("entropy", (ent * 0x9E3779B97F4A7C15 + 0x1234567) & ((1 << 64) - 1) or 1)
    planner = _disk_planner(cfg.get("disk", []))
    planner(slot, "main")

    rr, rw = os.pipe()
    sr, sw = os.pipe()
    t_start = time.monotonic()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.close(rr)
            os.close(sr)
            _child(disk, ops, cfg, slot, rw, sw, planner, opsmod)
            code = 0
        except BaseException:
            try:
                os.write(rw, _frame({"harness": traceback.format_exc()}))
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(rw)
    os.close(sw)
    life = Life()
    data = {rr: b"", sr: b""}
    open_fds = {rr, sr}
    timed_out = False
    while open_fds:
        left = WALL - (time.monotonic() - t_start)
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select(list(open_fds), [], [], left)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if not b:
                open_fds.discard(fd)
            else:
                data[fd] += b
        if rr not in open_fds and not ready:
            break
        if rr not in open_fds:
            # the process is gone; do not wait for orphaned workers holding the side channel
            r2, _, _ = select.select([sr], [], [], 0) if sr in open_fds else ([], [], [])
            if not r2:
                break
    os.close(rr)
    os.close(sr)
    if timed_out:
        blocked = _blocked(pid)
        _killpg(pid)
        os.waitpid(pid, 0)
        life.end = "hang" if blocked else "walltimeout"
        if blocked:
            life.events.append("every process of the run waits for another, for ever")
    else:
        _, st = os.waitpid(pid, 0)
        _killpg(pid)
        if os.WIFSIGNALED(st):
            life.end = f"signal {os.WTERMSIG(st)}"
        else:
            code = os.WEXITSTATUS(st)
            life.end = {0: "exit", 137: "killed", 86: "hang", 97: "harness"}.get(
                code, f"exitcode {code}"
            )
    buf = data[rr]
    while len(buf) >= 4:
        (n,) = struct.unpack("<I", buf[:4])
        if len(buf) < 4 + n:
            break
        rec = pickle.loads(buf[4 : 4 + n])
        buf = buf[4 + n :]
        if "harness" in rec:
            raise HarnessError(rec["harness"])
        if "final" in rec:
            life.counters = rec["final"]
            life.choices = rec["choices"]
        elif "start" in rec:
            pass
        else:
            life.results.append(rec)
    for line in data[sr].splitlines():
        try:
            r = json.loads(line)
        except ValueError:
            continue
        for k, v in r.get("fired", {}).items():
            life.fired[k] = life.fired.get(k, 0) + v
        life.events += r.get("ev", [])
        life.counters["sim_time"] = life.counters.get("sim_time", 0.0) + r.get("t", 0.0)
    for k in ("nops", "nreads", "nsteps", "bytes", "clock_calls", "entropy_calls", "clock_ns"):
        life.counters[k] = life.counters.get(k, 0) + slot.get(k)
    life.main_ops = slot.get("nops")
    for i in range(8):
        if slot.fired(i):
            life.fired[f"disk{i}"] = life.fired.get(f"disk{i}", 0) + slot.fired(i)
    for i, n in life.counters.get("fired", {}).items():
        life.fired[f"disk{i}"] = life.fired.get(f"disk{i}", 0) + n
    life.main_log = slot.log()
    life.log = life.main_log + life.counters.get("wlog", "")
    if life.end == "harness":
        raise HarnessError("simulated process failed in the harness")
    return life


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _blocked(pgrp, samples=20, pause=0.25):
    """Whether every process of the group sleeps without using any processor time."""
    before = None
    for _ in range(samples):
        now = {}
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    with open(f"/proc/{p}/stat") as f:
                        v = f.read().rsplit(")", 1)[1].split()
                except OSError:
                    continue
                if int(v[2]) == pgrp and v[0] != "Z":
                    if v[0] not in "S":
                        return False
                    now[p] = v[11:13]
        if before is not None and now != before:
            return False
        before = now
        time.sleep(pause)
    return bool(before)


def _frame(obj):
    b = pickle.dumps(obj)
    return struct.pack("<I", len(b)) + b


def _write_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _open_files(base):
    """Files of the run's directory that this process still has open."""
    import gc

    gc.collect()
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if p.startswith(base + "/"):
            out.append(p[len(base) + 1 :])
    return sorted(out)


def _prepare(op, disk, slot):
    """Directory and faults of one operation of a process that performs several."""
    if "cwd" in op:
        os.chdir(os.path.join(disk.cwd, op["cwd"]))
    if "engine" in op:
        W.faults = [dict(f) for f in op["engine"]]
        W.root_calls = 0
    for i, f in enumerate(op.get("disk", [])):
        slot.plan(i, f["action"], simio.ERRNO.get(f.get("errno"), 0), slot.get("nops") + f["at"],
                  f.get("count", 1), f.get("frac", 500), f.get("mask", 0))
    if "line_fault" in op:
        W.line_fault, W.lines = op["line_fault"], 0
        enable_lines()


def _child(disk, ops, cfg, slot, rw, sw, planner, opsmod):
    import tempfile

    import numpy as np

    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    os.chdir(os.path.join(disk.cwd, cfg.get("cwd", "")))
    tempfile.tempdir = disk.tmp
    cfg["_side_fd"] = sw
    W.reset(cfg)
    W.cfg["_disk_plan"] = planner
    W.slot = slot
    W.agg = {}
    W.arena = ARENA
    W.root = disk.base
    W.sched = Scheduler(cfg.get("sched"))
    W.worker_count = 0
    W.pools = 0
    random.seed(cfg.get("entropy", 1))
    np.random.seed(cfg.get("entropy", 1) % (1 << 32))
    L = simio.lib()
    L.simio_set_root(disk.base.encode())
    if W.line_fault:
        enable_lines()
    for op in ops:
        _prepare(op, disk, slot)
        L.simio_attach(slot.addr)
        try:
            try:
                val = opsmod.run(op)
                rec = {"ok": val}
            finally:
                lf, W.line_fault = W.line_fault, None
                L.simio_detach()
        except BaseException as e:  # noqa: BLE001 - every ending is an outcome
            tb = traceback.extract_tb(e.__traceback__)
            rec = {
                "exc": type(e).__name__,
                "mro": [c.__name__ for c in type(e).__mro__],
                "msg": str(e)[:400],
                "where": [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-6:],
                "code": getattr(e, "code", None) if isinstance(e, SystemExit) else None,
            }
        rec["open"] = _open_files(disk.base)
        _write_all(rw, _frame(rec))
        W.line_fault = None if "line_fault" in op else lf
        if "engine" in op:
            W.faults = []
        if "disk" in op:
            for i in range(len(op["disk"])):
                f = W.agg.setdefault("fired", {})
                f[i] = f.get(i, 0) + slot.fired(i)
                slot.plan(i, "err", 5, 1 << 60)
    fin = dict(W.agg)
    fin["sim_time"] = W.sim_time
    fin["jumps"] = W.jumps
    fin["lines"] = W.lines
    fin["pools"] = W.pools
    fin["kills"] = W.sched.kills
    fin["workers"] = W.worker_count
    fin["root_calls"] = W.root_calls
    fin["engine_fired"] = dict(W.fired)
    _write_all(rw, _frame({"final": fin, "choices": W.sched.log}))
    from .world import note_fired

    W.sim_time = 0.0
    note_fired(W)
    os._exit(0)
