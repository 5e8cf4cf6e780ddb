"""Simulated process pools.

Pool workers are real forked processes running the real code, but which worker runs, for how
many steps, which idle worker gets the next task, and whether a worker dies, is decided by the
seeded scheduler in the parent: exactly one worker runs at any time.
"""

import concurrent.futures
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import random
import select
import socket
import struct
import sys

from . import simio
from .world import W, note_fired

HDR = struct.Struct("<ci")
MAXSLOTS = 40


class Scheduler:
    """Source of every scheduling decision of one simulated process."""

    def __init__(self, cfg):
        self.cfg = cfg or {}
        self.rng = random.Random(self.cfg.get("seed", 0))
        self.script = list(self.cfg.get("choices", []))
        self.use_script = "choices" in self.cfg
        self.quantum = self.cfg.get("quantum", 50)
        self.kill_at = self.cfg.get("kill_at")  # scheduling event at which the chosen worker dies
        self.n = 0
        self.log = []
        self.kills = 0
        self.policy = self.cfg.get("policy", "random")

    def choose(self, n):
        i = 0
        if n > 1:
            if self.use_script:
                i = self.script.pop(0) % n if self.script else 0
            elif self.policy == "fifo":
                i = 0
            elif self.policy == "lifo":
                i = n - 1
            else:
                i = self.rng.randrange(n)
        self.log.append(i)
        self.n += 1
        return i

    def next_quantum(self):
        if self.use_script or self.quantum <= 1:
            return self.quantum
        return self.rng.randint(1, self.quantum)


# ---- worker side ---------------------------------------------------------------------------


def _read_exact(fd, n):
    out = b""
    while len(out) < n:
        try:
            b = os.read(fd, n - len(out))
        except InterruptedError:
            continue
        if not b:
            return None
        out += b
    return out


def worker_main(rfd, wfd, slot, init, initargs):
    """Body of a pool worker process: run tasks until told to exit."""
    L = simio.lib()
    L.simio_detach()
    W.in_worker = True
    W.slot = slot
    W.fired = {}
    if init is not None:
        init(*initargs)
    while True:
        hdr = _read_exact(rfd, 16)
        if hdr is None:
            note_fired(W)
            os._exit(0)
        quantum, n = struct.unpack("<qq", hdr)
        if n < 0:
            note_fired(W)
            os._exit(0)
        payload = _read_exact(rfd, n)
        L.simio_set_yield(rfd, wfd, quantum)
        L.simio_attach(slot.addr)
        try:
            fn, args, kwargs = pickle.loads(payload)
            res = (True, fn(*args, **kwargs))
        except Exception as e:
            res = (False, multiprocessing.pool.ExceptionWithTraceback(e, e.__traceback__))
        except SystemExit:
            note_fired(W)
            os._exit(1)
        except KeyboardInterrupt:
            note_fired(W)
            os._exit(130)
        L.simio_detach()
        L.simio_set_yield(-1, -1, 0)
        try:
            data = pickle.dumps(res)
        except Exception as e:
            data = pickle.dumps(
                (False, multiprocessing.pool.MaybeEncodingError(e, res[1]))
            )
        msg = HDR.pack(b"r", len(data)) + data
        while msg:
            k = os.write(wfd, msg)
            msg = msg[k:]


# ---- spawn nursery -------------------------------------------------------------------------
_nursery = None


def start_nursery(arena):
    """Fork a pristine process from which "spawned" workers are made."""
    global _nursery
    a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
    pid = os.fork()
    if pid:
        b.close()
        _nursery = a
        return
    a.close()
    import signal

    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        try:
            msg, fds, _, _ = socket.recv_fds(b, 1 << 20, 8)
        except OSError:
            os._exit(0)
        if not msg:
            os._exit(0)
        job = pickle.loads(msg)
        pid = os.fork()
        if pid:
            for fd in fds:
                os.close(fd)
            continue
        b.close()
        try:
            os.chdir(job["cwd"])
            import tempfile

            tempfile.tempdir = job["tempdir"]
            if len(fds) > 2:
                job["cfg"]["_side_fd"] = fds[2]
            W.reset(job["cfg"])
            simio.lib().simio_set_root(job["root"].encode())
            worker_main(fds[0], fds[1], arena.slot(job["slot"]), job["init"], job["initargs"])
        finally:
            os._exit(98)


# ---- controller side -----------------------------------------------------------------------


class _Worker:
    def __init__(self, core):
        self.core = core
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        W.worker_count = getattr(W, "worker_count", 0) + 1
        index = 1 + (W.worker_count - 1) % MAXSLOTS
        self.slot = W.arena.slot(index)
        harvest_slot(self.slot)
        self.slot.reset()
        base = W.slot
        self.slot.set("step_budget", W.cfg.get("step_budget", -1))
        self.slot.set("read_budget", W.cfg.get("read_budget", -1))
        self.slot.set("op_budget", W.cfg.get("op_budget", -1))
        self.slot.set("entropy", 0x9E3779B97F4A7C15 ^ (W.cfg.get("entropy", 1) * 7919 + W.worker_count))
        W.cfg["_disk_plan"](self.slot, "workers") if W.cfg.get("_disk_plan") else None
        self.pid = None
        if core.method == "fork":
            L = simio.lib()
            p = L.simio_detach()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    for w in core.workers:
                        w.close()
                    worker_main(r1, w2, self.slot, core.init, core.initargs)
                finally:
                    os._exit(98)
            L.simio_resume(p)
            self.pid = pid
        else:
            import tempfile

            cfg = {k: v for k, v in W.cfg.items() if not callable(v)}
            fds = [r1, w2]
            if cfg.pop("_side_fd", None) is not None:
                fds.append(W.cfg["_side_fd"])
            msg = pickle.dumps(
                {
                    "cfg": cfg, "cwd": os.getcwd(), "root": W.root, "slot": index,
                    "init": core.init, "initargs": core.initargs, "tempdir": tempfile.tempdir,
                }
            )
            socket.send_fds(_nursery, [msg], fds)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.task = None
        self.parked = False
        self.ntasks = 0
        self.alive = True

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass

    def reap(self):
        if self.pid is not None:
            try:
                os.waitpid(self.pid, 0)
            except ChildProcessError:
                pass
            self.pid = None

    def stop(self):
        if self.alive:
            self.alive = False
            try:
                if self.parked:
                    os.write(self.w, struct.pack("<q", -1))
                else:
                    os.write(self.w, struct.pack("<qq", 0, -1))
                # its end of the pipe closes when it has gone, with its last report sent
                while os.read(self.r, 4096):
                    pass
            except OSError:
                pass
        self.close()
        self.reap()


def harvest_slot(slot):
    """Fold a finished worker's counters into the run's totals."""
    agg = W.agg
    for k in ("nops", "nsteps", "bytes", "yields", "entropy_calls"):
        agg[k] = agg.get(k, 0) + slot.get(k)
    for i in range(8):
        n = slot.fired(i)
        if n:
            agg.setdefault("fired", {})
            agg["fired"][i] = agg["fired"].get(i, 0) + n
    agg["wlog"] = agg.get("wlog", "") + slot.log()
    slot.reset()


class _Task:
    __slots__ = ("payload", "cb", "state", "value", "index")

    def __init__(self, payload):
        self.payload = payload
        self.state = "queued"
        self.value = None


class Core:
    """Workers plus task queue, driven one step at a time by the scheduler."""

    def __init__(self, n, method, init=None, initargs=(), maxtasks=None, eager=True, broken_on_death=False):
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = n
        self.method = "fork" if method == "fork" else "spawn"
        self.init, self.initargs, self.maxtasks = init, initargs, maxtasks
        self.broken_on_death = broken_on_death
        self.broken = False
        self.workers = []
        self.queue = []
        self.lost = 0
        W.pools = getattr(W, "pools", 0) + 1
        if eager:
            while len(self.workers) < min(n, 16):
                self.workers.append(_Worker(self))
        self.started = set()

    def submit(self, fn, args=(), kwargs=None):
        t = _Task(pickle.dumps((fn, args, kwargs or {})))
        self.queue.append(t)
        return t

    def _grow(self):
        if len([w for w in self.workers if w.alive]) < min(self.n, 16) and self.queue:
            idle = [w for w in self.workers if w.alive and w.task is None]
            if len(idle) < len(self.queue):
                self.workers.append(_Worker(self))

    def pump(self):
        """Make one scheduling decision.  False when nothing can run."""
        self._grow()
        acts = []
        if self.queue:
            acts += [("give", w) for w in self.workers if w.alive and w.task is None]
        acts += [("go", w) for w in self.workers if w.alive and w.parked]
        if not acts:
            return False
        S = W.sched
        kind, w = acts[S.choose(len(acts))]
        q = S.next_quantum()
        kill = S.kill_at is not None and S.n >= S.kill_at and w.parked
        if kill:
            S.kill_at = None
            S.kills += 1
            W.events.append(f"worker killed at scheduling event {S.n}")
            os.write(w.w, struct.pack("<q", -1))
        elif kind == "give":
            w.task = self.queue.pop(0)
            w.task.state = "running"
            w.ntasks += 1
            data = struct.pack("<qq", q, len(w.task.payload)) + w.task.payload
            while data:
                k = os.write(w.w, data)
                data = data[k:]
        else:
            os.write(w.w, struct.pack("<q", q))
        w.parked = False
        hdr = _read_exact(w.r, 5)
        if hdr is None:
            self._died(w)
            return True
        tag, n = HDR.unpack(hdr)
        if tag == b"y":
            w.parked = True
            return True
        body = _read_exact(w.r, n) if n else b""
        t, w.task = w.task, None
        try:
            t.value = pickle.loads(body)
        except Exception as e:
            t.value = (False, e)
        t.state = "done"
        if self.maxtasks and w.ntasks >= self.maxtasks:
            w.stop()
            harvest_slot(w.slot)
            self.workers.remove(w)
            if len(self.workers) < min(self.n, 16):
                self.workers.append(_Worker(self))
        return True

    def _died(self, w):
        w.alive = False
        w.close()
        st = None
        if w.pid is not None:
            try:
                _, st = os.waitpid(w.pid, 0)
            except ChildProcessError:
                pass
            w.pid = None
        if st is not None and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 86:
            W.hang("worker exceeded its step budget")
        harvest_slot(w.slot)
        W.events.append("worker died")
        if w.task is not None:
            w.task.state = "lost"
            self.lost += 1
        self.workers.remove(w)
        if self.broken_on_death:
            self.broken = True
        elif len(self.workers) < min(self.n, 16):
            self.workers.append(_Worker(self))  # Pool replaces dead workers

    def run_until(self, pred, timeout=None):
        while not pred():
            if self.broken and self.broken_on_death:
                return False
            if not self.pump():
                if timeout is not None:
                    return False
                W.hang("waiting for a pool result that can never arrive")
        return True

    def shutdown(self):
        for w in list(self.workers):
            w.stop()
            harvest_slot(w.slot)
        self.workers = []


def _mapstar(args):
    return [args[0](*a) for a in args[1]]


def _run_chunk(fn, chunk, star):
    if star:
        return [fn(*a) for a in chunk]
    return [fn(a) for a in chunk]


class AsyncResult:
    def __init__(self, pool, tasks, flatten, callback=None, error_callback=None):
        self._pool, self._tasks, self._flatten = pool, tasks, flatten
        self._cb, self._ecb, self._called = callback, error_callback, False
        pool._pending.append(self)

    def ready(self):
        return all(t.state == "done" for t in self._tasks)

    def successful(self):
        if not self.ready():
            raise ValueError(f"{self!r} not ready")
        return all(t.value[0] for t in self._tasks)

    def _finish(self):
        if self._called or not self.ready():
            return
        self._called = True
        bad = [t.value[1] for t in self._tasks if not t.value[0]]
        if bad and self._ecb:
            self._ecb(bad[0])
        if not bad and self._cb:
            self._cb(self._value())

    def _value(self):
        if not self._flatten:
            return self._tasks[0].value[1]
        return [v for t in self._tasks for v in t.value[1]]

    def wait(self, timeout=None):
        self._pool._core.run_until(self.ready, timeout)
        self._pool._callbacks()

    def get(self, timeout=None):
        # the real pool reports the first failure as soon as it is known, but only after the
        # whole map finished; either way the order of failures follows completion
        def done():
            return self.ready()

        if not self._pool._core.run_until(done, timeout):
            raise multiprocessing.TimeoutError
        self._pool._callbacks()
        for t in self._tasks:
            if not t.value[0]:
                raise t.value[1]
        return self._value()


class SimPool:
    """Stand-in for multiprocessing.pool.Pool."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = W.cpu_count
        method = context.get_start_method() if context is not None else current_method()
        self._core = Core(processes, method, initializer, initargs, maxtasksperchild)
        self._state = "RUN"
        self._pending = []
        self._processes = processes

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _callbacks(self):
        for a in self._pending:
            a._finish()

    def _chunks(self, fn, iterable, chunksize, star):
        items = list(iterable)
        if not items:
            return []
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        return [
            self._core.submit(_run_chunk, (fn, items[i : i + chunksize], star))
            for i in range(0, len(items), chunksize)
        ]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return AsyncResult(self, self._chunks(func, iterable, chunksize, False), True, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return AsyncResult(self, self._chunks(func, iterable, chunksize, True), True, callback, error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        return AsyncResult(self, [self._core.submit(func, tuple(args), dict(kwds))], False, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        self._check()
        tasks = self._chunks(func, iterable, chunksize, False)

        def gen():
            for t in tasks:
                self._core.run_until(lambda: t.state == "done")
                if not t.value[0]:
                    raise t.value[1]
                yield from t.value[1]

        return _Iter(gen())

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        tasks = self._chunks(func, iterable, chunksize, False)

        def gen():
            left = list(tasks)
            order = []
            for t in left:
                t.index = None
            seen = []
            while left:
                def some():
                    return any(t.state == "done" for t in left)

                self._core.run_until(some)
                done = [t for t in left if t.state == "done"]
                for t in done:
                    left.remove(t)
                    if not t.value[0]:
                        raise t.value[1]
                    yield from t.value[1]

        return _Iter(gen())

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"

    def terminate(self):
        self._state = "TERMINATE"
        self._core.queue.clear()
        self._core.shutdown()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        core = self._core

        def idle():
            return not core.queue and not any(w.task is not None for w in core.workers)

        if self._state == "CLOSE":
            core.run_until(idle)
        self._callbacks()
        core.shutdown()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.terminate()

    def __del__(self):
        try:
            self._core.shutdown()
        except Exception:
            pass


class _Iter:
    def __init__(self, gen):
        self._gen = gen

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._gen)

    def next(self, timeout=None):
        return next(self._gen)


class SimFuture(concurrent.futures.Future):
    def _bind(self, ex, task):
        self._ex, self._task = ex, task
        return self

    def _sync(self):
        t = self._task
        if self.done():
            return
        if t.state == "done":
            self.set_running_or_notify_cancel()
            ok, v = t.value
            if ok:
                self.set_result(v)
            else:
                self.set_exception(v.exc if hasattr(v, "exc") else v)
        elif self._ex._core.broken:
            from concurrent.futures.process import BrokenProcessPool

            self.set_running_or_notify_cancel()
            self.set_exception(
                BrokenProcessPool(
                    "A process in the process pool was terminated abruptly "
                    "while the future was running or pending."
                )
            )

    def _drive(self, timeout):
        self._ex._sync_all()
        if self.done():
            return
        self._ex._core.run_until(lambda: self._task.state == "done", timeout)
        self._ex._sync_all()

    def result(self, timeout=None):
        self._drive(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._drive(timeout)
        return super().exception(0)

    def cancel(self):
        if self._task.state == "queued" and self._task in self._ex._core.queue:
            self._ex._core.queue.remove(self._task)
            self._task.state = "cancelled"
        return super().cancel() if self._task.state == "cancelled" else False


class SimExecutor(concurrent.futures.Executor):
    """Stand-in for concurrent.futures.ProcessPoolExecutor."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        method = mp_context.get_start_method() if mp_context is not None else current_method()
        self._core = Core(
            max_workers or W.cpu_count, method, initializer, initargs, max_tasks_per_child,
            eager=False, broken_on_death=True,
        )
        self._futures = []
        self._down = False

    def _sync_all(self):
        for f in self._futures:
            f._sync()

    def submit(self, fn, /, *args, **kwargs):
        if self._core.broken:
            from concurrent.futures.process import BrokenProcessPool

            raise BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()._bind(self, self._core.submit(fn, args, kwargs))
        self._futures.append(f)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        items = list(zip(*iterables))
        chunks = [items[i : i + chunksize] for i in range(0, len(items), chunksize)]
        fs = [self.submit(_run_chunk, fn, c, True) for c in chunks]

        def gen():
            for f in fs:
                yield from f.result()

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._down:
            return
        self._down = True
        core = self._core
        if cancel_futures:
            for f in self._futures:
                f.cancel()
        if not core.broken:
            core.run_until(
                lambda: not core.queue and not any(w.task is not None for w in core.workers)
            )
        self._sync_all()
        core.shutdown()

    def __exit__(self, *exc):
        self.shutdown(wait=True)
        return False


class InlineExecutor(concurrent.futures.Executor):
    """Thread-pool stand-in: tasks share memory and run to completion in a seeded order."""

    def __init__(self, max_workers=None, *a, **k):
        self._jobs = []

    def submit(self, fn, /, *args, **kwargs):
        f = InlineFuture()
        f._ex = self
        self._jobs.append((f, fn, args, kwargs))
        return f

    def _drain(self):
        while self._jobs:
            f, fn, args, kwargs = self._jobs.pop(W.sched.choose(len(self._jobs)))
            if not f.set_running_or_notify_cancel():
                continue
            try:
                f.set_result(fn(*args, **kwargs))
            except BaseException as e:  # noqa: BLE001 - what the real executor does
                f.set_exception(e)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._drain()


class InlineFuture(concurrent.futures.Future):
    def result(self, timeout=None):
        self._ex._drain()
        return super().result(0)

    def exception(self, timeout=None):
        self._ex._drain()
        return super().exception(0)


class InlineThreadPool:
    def __init__(self, processes=None, initializer=None, initargs=()):
        if initializer:
            initializer(*initargs)

    def map(self, fn, it, chunksize=None):
        ex = InlineExecutor()
        return list(ex.map(fn, it))

    def starmap(self, fn, it, chunksize=None):
        return self.map(lambda a: fn(*a), it)

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        out = []
        ex = InlineExecutor()
        for a in it:
            ex.submit(lambda a=a: out.append(fn(a)))
        ex._drain()
        return iter(out)

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def current_method():
    import multiprocessing as mp

    explicit = mp.get_start_method(allow_none=True)
    return explicit or W.start_method


_real_as_completed = concurrent.futures.as_completed
_real_wait = concurrent.futures.wait


def as_completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, (SimFuture, InlineFuture)) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    left = list(fs)
    while left:
        for f in left:
            if isinstance(f, InlineFuture):
                f._ex._drain()
            else:
                f._ex._sync_all()
        done = [f for f in left if f.done()]
        if not done:
            left[0]._ex._core.run_until(
                lambda: any(f._task.state == "done" for f in left)
            )
            for f in left:
                f._ex._sync_all()
            continue
        for f in done:
            left.remove(f)
            yield f


def wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    fs = list(fs)
    if not any(isinstance(f, (SimFuture, InlineFuture)) for f in fs):
        return _real_wait(fs, timeout, return_when)
    done = set()
    for f in as_completed(fs):
        done.add(f)
        if return_when == concurrent.futures.FIRST_COMPLETED:
            break
        if return_when == concurrent.futures.FIRST_EXCEPTION and f.exception() is not None:
            break
    return concurrent.futures._base.DoneAndNotDoneFutures(done, set(fs) - done)


def install():
    import concurrent.futures.process
    import concurrent.futures.thread
    import multiprocessing.dummy

    def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        ctx = self if getattr(self, "_name", None) else None
        return SimPool(processes, initializer, initargs, maxtasksperchild, ctx)

    multiprocessing.Pool = Pool
    multiprocessing.context.BaseContext.Pool = ctx_pool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = InlineThreadPool
    multiprocessing.dummy.Pool = InlineThreadPool
    multiprocessing.cpu_count = lambda: W.cpu_count
    multiprocessing.context.BaseContext.cpu_count = lambda self: W.cpu_count
    os.cpu_count = lambda: W.cpu_count
    os.sched_getaffinity = lambda pid=0: set(range(W.cpu_count))
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ThreadPoolExecutor = InlineExecutor
    concurrent.futures.thread.ThreadPoolExecutor = InlineExecutor
    concurrent.futures.as_completed = as_completed
    concurrent.futures.wait = wait
