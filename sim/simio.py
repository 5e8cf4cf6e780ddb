"""Control interface of the LD_PRELOADed seam (simio.c)."""

import ctypes
import mmap
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), "build")
SO = os.path.join(BUILD, "simio.so")

CRASH, ERR, SHORT, SIGINT, TORN = 1, 2, 3, 4, 5
ACTIONS = {"crash": CRASH, "err": ERR, "short": SHORT, "sigint": SIGINT, "torn": TORN}
C_OPEN, C_WRITE, C_RENAME, C_UNLINK, C_TRUNC, C_MKDIR, C_RMDIR, C_SYNC, C_CLOSE = (
    1 << i for i in range(9)
)
ERRNO = {"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EMFILE": 24, "EDQUOT": 122, "EROFS": 30}


def build():
    """Compile the seam if it is missing or older than its source."""
    src = os.path.join(HERE, "simio.c")
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(src):
        return SO
    tmp = f"{SO}.{os.getpid()}"
    subprocess.run(
        ["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True
    )
    os.replace(tmp, SO)
    return SO


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(SO)
        L = _lib
        p, i64, i32 = ctypes.c_void_p, ctypes.c_int64, ctypes.c_int
        L.simio_slot_size.restype = ctypes.c_size_t
        L.simio_set_root.argtypes = [ctypes.c_char_p]
        L.simio_attach.argtypes = [p]
        L.simio_detach.restype = p
        L.simio_resume.argtypes = [p]
        L.simio_set_yield.argtypes = [i32, i32, i64]
        L.simio_reset.argtypes = [p]
        L.simio_plan.argtypes = [p, i32, i32, i32, i64, i64, i64, i64]
        L.simio_fired.argtypes = [p, i32]
        L.simio_fired.restype = i64
        L.simio_get.argtypes = [p, i32]
        L.simio_get.restype = i64
        L.simio_set.argtypes = [p, i32, i64]
        L.simio_log.argtypes = [p]
        L.simio_log.restype = ctypes.c_char_p
        L.simio_step.argtypes = []
    return _lib


class Slot:
    """Shared-memory record of one simulated process: plan, counters and operation log."""

    def __init__(self, arena, index):
        self.addr = arena.base + index * arena.size

    def reset(self):
        lib().simio_reset(self.addr)

    def plan(self, i, action, err=0, at=0, count=1, frac=500, mask=0):
        lib().simio_plan(
            self.addr, i, ACTIONS[action], err, at, count, frac, mask
        )

    def fired(self, i):
        return lib().simio_fired(self.addr, i)

    def get(self, what):
        return lib().simio_get(
            self.addr,
            ["nops", "nreads", "nsteps", "budget", "bytes", "clock_calls",
             "entropy_calls", "yields", "loglen", "clock_ns"].index(what),
        )

    def set(self, what, value):
        value &= (1 << 64) - 1
        if value >= 1 << 63:
            value -= 1 << 64
        lib().simio_set(
            self.addr,
            ["read_budget", "step_budget", "op_budget", "clock_base", "clock_tick",
             "jump_at", "jump_ns", "entropy"].index(what),
            value,
        )

    def log(self):
        return lib().simio_log(self.addr).decode("utf-8", "replace")


class Arena:
    def __init__(self, n):
        self.size = (lib().simio_slot_size() + 4095) // 4096 * 4096
        self.map = mmap.mmap(-1, self.size * n)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.map))
        self.n = n

    def slot(self, i):
        return Slot(self, i)
