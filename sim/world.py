"""The simulated world: engine seams, step accounting and the per-run fault plan.

``install()`` must run before pymars is imported.  It replaces, inside Cantera/SciPy/
multiprocessing (never inside pymars), the names through which pymars reaches anything that is
slow, non-deterministic or able to fail.
"""

import os
import sys

import numpy as np

from . import simio

HANG_EXIT = 86


class World:
    """Mutable state of the current simulated process."""

    def __init__(self):
        self.reset({})

    def reset(self, cfg):
        self.cfg = cfg
        self.faults = [dict(f) for f in cfg.get("engine", [])]
        self.fired = {}
        self.stub_flame = cfg.get("stub_flame", True)
        self.cpu_count = cfg.get("cpu_count", 4)
        self.start_method = cfg.get("start_method", "fork")
        self.sim_time = 0.0
        self.jumps = 0
        self.jump_budget = cfg.get("jump_budget", 20_000_000)
        self.cur_psr = None
        self.psr_n = 0
        self.root_calls = 0
        self.root_hard = False
        self.in_worker = False
        self.slot = None
        self.sched = None
        self.line_fault = cfg.get("line_fault")
        self.lines = 0
        self.events = []

    # -- faults ---------------------------------------------------------------------------
    def match(self, kind, t0, p0, species, n):
        """The fault (if any) that strikes case ``(kind, t0)`` of a model at its step ``n``."""
        for i, f in enumerate(self.faults):
            if f["kind"] != kind or f.get("exc", "").startswith(("scale", "base")):
                continue
            if f.get("t0") is not None and abs(f["t0"] - t0) > 0.01:
                continue
            if n < f.get("at", 0) or (f.get("until") is not None and n >= f["until"]):
                continue
            if not fault_applies(f, species):
                continue
            return i, f
        return None

    def strike(self, kind, t0, p0, species, n):
        hit = self.match(kind, t0, p0, species, n)
        if hit is None:
            return
        i, f = hit
        self.fired[i] = self.fired.get(i, 0) + 1
        what = f.get("exc", "cantera")
        self.events.append(f"fault {kind} {t0:g} n={n} {what}")
        import cantera as ct

        if what.startswith("speed"):
            # the solve ends without an error, at a speed that no real flame has
            return float(what[5:])
        if what == "cantera":
            raise ct.CanteraError(f"injected solver failure ({kind}, {t0:g} K, step {n})")
        if what == "runtime":
            raise RuntimeError(f"injected failure ({kind}, {t0:g} K, step {n})")
        if what == "memory":
            raise MemoryError("injected allocation failure")
        if what == "interrupt":
            raise KeyboardInterrupt
        if what == "kill":
            note_fired(self)
            os._exit(137)
        raise AssertionError(what)

    def scale(self, t0, species):
        """What the faults make of the speed a flame's solve ends at: (given speed or None, factor)."""
        base, out = None, 1.0
        for i, f in enumerate(self.faults):
            if f["kind"] == "flame" and f.get("exc", "").startswith(("scale", "base")):
                if (f.get("t0") is None or abs(f["t0"] - t0) < 0.01) and fault_applies(f, species):
                    self.fired[i] = self.fired.get(i, 0) + 1
                    if f["exc"].startswith("base"):
                        base = float(f["exc"][4:])
                    else:
                        out *= float(f["exc"][5:])
        return base, out

    def hang(self, why):
        self.events.append("hang " + why)
        note_fired(self)
        os._exit(HANG_EXIT)

    def step(self):
        simio.lib().simio_step()


def fault_applies(f, species):
    """Does a sticky fault apply to a model with these species?"""
    w = f.get("when")
    if not w:
        return True
    species = set(species)
    if "lacks" in w:
        return any(s not in species for s in w["lacks"])
    if "lacks_all" in w:
        return all(s not in species for s in w["lacks_all"])
    if "n_below" in w:
        return len(species) < w["n_below"]
    if "n_equal" in w:
        return len(species) == w["n_equal"]
    if "exact" in w:
        return species == set(w["exact"])
    raise AssertionError(w)


def note_fired(world):
    """Report through the side channel what fired in a process that is about to vanish."""
    fd = world.cfg.get("_side_fd")
    if fd is not None:
        import json

        data = json.dumps(
            {"fired": world.fired, "t": world.sim_time, "ev": world.events[-3:]}
        ).encode() + b"\n"
        try:
            os.write(fd, data)
        except OSError:
            pass


W = World()
REAL = {}


def _kind(reactor):
    name = type(reactor).__name__
    return "ign-p" if "ConstPressure" in name else "ign-v"


def install():
    """Put the seams in place (idempotent)."""
    if REAL:
        return
    import cantera as ct
    import multiprocessing
    import scipy.optimize

    REAL["ReactorNet"] = ct.ReactorNet
    REAL["FreeFlame"] = ct.FreeFlame
    REAL["equilibrate"] = ct.Solution.equilibrate
    REAL["root"] = scipy.optimize.root
    REAL["cpu_count"] = multiprocessing.cpu_count

    class ReactorNet(ct.ReactorNet):
        """Real CVODES integration; each internal step is one scheduler and fault point."""

        def __init__(self, reactors=(), *args, **kwargs):
            super().__init__(reactors, *args, **kwargs)
            reactors = list(reactors)
            self._sim_n = 0
            if reactors:
                r = reactors[0]
                self._sim_key = (
                    "ign",
                    float(r.T),
                    float(r.phase.P),
                    tuple(r.phase.species_names),
                )
            else:
                self._sim_key = ("ign", 0.0, 0.0, ())

        def _before(self):
            W.step()
            self._sim_n += 1
            t = self.time
            if not t < 1e280:
                # CVODES never returns once its internal time overflows.
                W.hang("integrator time overflow")
            if W.faults:
                k = self._sim_key
                W.strike(k[0], k[1], k[2], k[3], self._sim_n)
            return t

        def step(self):
            t = self._before()
            out = super().step()
            W.sim_time += min(self.time - t, 1e3)
            return out

        def advance(self, *a, **k):
            t = self._before()
            out = super().advance(*a, **k)
            W.sim_time += min(self.time - t, 1e3)
            return out

        def advance_to_steady_state(self, *a, **k):
            t = self._before()
            out = super().advance_to_steady_state(*a, **k)
            W.sim_time += min(self.time - t, 1e3)
            return out

    class FreeFlame(ct.FreeFlame):
        """Freely-propagating flame whose Newton solve is a stub unless told otherwise."""

        def __init__(self, gas, grid=None, width=None):
            self._sim_stub = W.stub_flame
            self._sim_gas = gas
            self._sim_inlet = (gas.T, gas.P, gas.Y.copy())
            if self._sim_stub:
                grid = np.linspace(0.0, width if width else 0.02, 61)
                super().__init__(gas, grid=grid)
            else:
                super().__init__(gas, grid=grid, width=width)

        def solve(self, *args, **kwargs):
            t0, p0, y0 = self._sim_inlet
            W.step()
            odd = W.strike("flame", t0, p0, self._sim_gas.species_names, 1)
            if not self._sim_stub:
                for _ in range(3):
                    W.step()
                return super().solve(*args, **kwargs)
            for n in range(2, 6):
                W.step()
                x = W.strike("flame", t0, p0, self._sim_gas.species_names, n)
                odd = odd if x is None else x
            flame_stub_solve(self, odd, W.scale(t0, self._sim_gas.species_names))

    def equilibrate(self, *args, **kwargs):
        if not W.cfg.get("_oracle"):
            W.step()
            if W.faults:
                W.strike("psr", float(self.T), float(self.P), tuple(self.species_names), 1)
            W.cur_psr = (float(self.T), float(self.P), tuple(self.species_names))
            W.psr_n = 1
        return REAL["equilibrate"](self, *args, **kwargs)

    real_npr = None
    for cls in ct.Solution.__mro__[1:]:
        if "net_production_rates" in cls.__dict__:
            real_npr = cls.__dict__["net_production_rates"]
            break
    REAL["npr"] = real_npr

    def npr(self):
        if W.faults and W.cur_psr is not None:
            W.psr_n += 1
            if W.psr_n % 25 == 0:
                W.step()
            t, p, sp = W.cur_psr
            W.strike("psr", t, p, sp, W.psr_n)
        elif W.cur_psr is not None:
            W.psr_n += 1
            if W.psr_n % 25 == 0:
                W.step()
        return real_npr.__get__(self)

    ct.Solution.equilibrate = equilibrate
    ct.Solution.net_production_rates = property(npr)
    ct.ReactorNet = ReactorNet
    ct.FreeFlame = FreeFlame
    for mod in list(sys.modules.values()):
        if mod is None or not getattr(mod, "__name__", "").startswith("cantera"):
            continue
        for name, cls in (("ReactorNet", ReactorNet), ("FreeFlame", FreeFlame)):
            if getattr(mod, name, None) is REAL[name]:
                setattr(mod, name, cls)

    def root(*args, **kwargs):
        W.root_calls += 1
        W.root_hard = False
        for i, f in enumerate(W.faults):
            if f["kind"] == "root" and f["at"] <= W.root_calls < f["until"]:
                W.fired[i] = W.fired.get(i, 0) + 1
                # a hard failure: the fall-back solver fails as well
                W.root_hard = bool(f.get("hard"))
                from scipy.optimize import OptimizeResult

                x0 = np.asarray(args[1] if len(args) > 1 else kwargs["x0"], dtype=float)
                return OptimizeResult(
                    x=x0 * np.nan if f.get("nan") else x0.copy(),
                    success=False, status=5, fun=np.full(x0.shape, 1e3),
                    message="injected: no progress", nfev=1,
                )
        return REAL["root"](*args, **kwargs)

    scipy.optimize.root = root
    REAL["solve"] = np.linalg.solve

    def solve(*args, **kwargs):
        if W.root_hard:
            raise np.linalg.LinAlgError("injected: singular matrix")
        return REAL["solve"](*args, **kwargs)

    np.linalg.solve = solve

    from . import simpool

    simpool.install()


def flame_speed_model(gas, t0, p0, y0):
    """Stub physics: a smooth, mechanism-dependent flame speed and burnt state.

    Returns ``(speed, T_burnt, Y_burnt)``; ``speed`` may be non-physical (no flame).
    """
    gas.TPY = t0, p0, y0
    REAL["equilibrate"](gas, "HP")
    tb, yb = gas.T, gas.Y.copy()
    if gas.n_reactions == 0 or tb < t0 + 300.0:
        return 0.0, tb, yb
    total = 0.0
    for c in (0.55, 0.7, 0.85):
        gas.TPY = t0 + c * (tb - t0), p0, (1 - c) * y0 + c * yb
        w = REAL["npr"].__get__(gas)
        total += float(np.dot(np.abs(w), gas.molecular_weights))
    gas.TPY = t0, p0, y0
    return 0.35 * np.log1p(total / 50.0), tb, yb


def flame_stub_solve(fl, odd=None, given=(None, 1.0)):
    import cantera as ct

    t0, p0, y0 = fl._sim_inlet
    gas = fl._sim_gas
    speed, tb, yb = flame_speed_model(gas, t0, p0, y0)
    if odd is not None:
        speed = odd
    elif not np.isfinite(speed) or speed <= 0.0:
        raise ct.CanteraError("stub flame: no steady flame found")
    else:
        speed = given[1] * (speed if given[0] is None else given[0])
    grid = fl.grid
    x = (grid - grid[0]) / (grid[-1] - grid[0])
    c = 0.5 * (1.0 + np.tanh((x - 0.45) / 0.12))
    c = (c - c[0]) / (c[-1] - c[0])
    fl.set_profile("T", list(x), list(t0 + c * (tb - t0)))
    for k, sp in enumerate(gas.species_names):
        fl.set_profile(sp, list(x), list(y0[k] + c * (yb[k] - y0[k])))
    fl.set_profile("velocity", list(x), list(speed * (t0 + c * (tb - t0)) / t0))


# ---- deterministic loop accounting in pymars code ------------------------------------------
_TOOL = 4


def _codes(obj, seen, out):
    import types

    if isinstance(obj, types.CodeType):
        if id(obj) in seen:
            return
        seen.add(id(obj))
        out.append(obj)
        for c in obj.co_consts:
            _codes(c, seen, out)


def pymars_codes():
    import types

    out, seen = [], set()
    for name, mod in list(sys.modules.items()):
        if name == "pymars" or name.startswith("pymars."):
            for v in list(vars(mod).values()):
                fns = []
                if isinstance(v, types.FunctionType):
                    fns.append(v)
                elif isinstance(v, type):
                    for m in vars(v).values():
                        m = getattr(m, "__func__", m)
                        if isinstance(m, property):
                            m = m.fget
                        if isinstance(m, types.FunctionType):
                            fns.append(m)
                for f in fns:
                    if "/pymars/" in f.__code__.co_filename:
                        _codes(f.__code__, seen, out)
    return out


def install_monitor():
    """Count jumps (loop iterations) in pymars code against a budget."""
    mon = sys.monitoring
    ev = mon.events
    mon.use_tool_id(_TOOL, "pymars-sim")

    def on_jump(code, off, dest):
        if dest < off:
            W.jumps += 1
            if W.jumps > W.jump_budget and W.slot is not None:
                W.hang("python loop budget in " + code.co_name)

    mon.register_callback(_TOOL, ev.JUMP, on_jump)

    def on_line(code, line):
        lf = W.line_fault
        if lf is None:
            return mon.DISABLE
        W.lines += 1
        if W.lines == lf["at"]:
            W.fired["line"] = W.fired.get("line", 0) + 1
            W.events.append(f"line fault in {code.co_name} {lf['exc']}")
            if lf["exc"] == "interrupt":
                raise KeyboardInterrupt
            if lf["exc"] == "memory":
                raise MemoryError("injected")
            if lf["exc"] == "kill":
                note_fired(W)
                os._exit(137)

    mon.register_callback(_TOOL, ev.LINE, on_line)
    for code in pymars_codes():
        mon.set_local_events(_TOOL, code, ev.JUMP)


def enable_lines():
    mon = sys.monitoring
    for code in pymars_codes():
        mon.set_local_events(_TOOL, code, mon.events.JUMP | mon.events.LINE)
    mon.restart_events()
