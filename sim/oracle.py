"""Reference models: what pyMARS must compute, written independently of its source.

Ignition delays are recomputed with the real (unwrapped) Cantera integrator, flame speeds with
the flame stub's own model, PSR metrics with a fault-free single-case evaluation in a fresh
process.  Fault-struck (case, model) pairs are zero by the documented candidate semantics.
"""

import hashlib
import os

import numpy as np

from .harness import Ambiguous
from .ops import set_state
from .world import REAL, W, fault_applies, flame_speed_model

_cache = {}


def _key(text, phase, kind, case, extra=()):
    h = hashlib.sha1(text.encode() if isinstance(text, str) else text).hexdigest()
    return (h, phase, kind, repr(sorted(case.items())), extra)


def _solution(text, phase):
    import cantera as ct

    k = ("sol", hashlib.sha1(text.encode()).hexdigest(), phase)
    if k not in _cache:
        _cache[k] = ct.Solution(yaml=text) if not phase else ct.Solution(yaml=text, name=phase)
    return _cache[k]


def _fresh(text, phase):
    import cantera as ct

    return ct.Solution(yaml=text) if not phase else ct.Solution(yaml=text, name=phase)


def ignition_delay(text, phase, case):
    """Delay (s) to a 400 K rise, or 0.0 when the model does not ignite or cannot be integrated."""
    import cantera as ct

    k = _key(text, phase, "ign", case)
    if k in _cache:
        return _cache[k]
    gas = _fresh(text, phase)
    set_state(gas, case)
    if case["kind"] == "constant pressure":
        r = ct.IdealGasConstPressureMoleReactor(gas, clone=False)
    else:
        r = ct.IdealGasMoleReactor(gas, clone=False)
    net = REAL["ReactorNet"]([r])
    net.preconditioner = ct.AdaptivePreconditioner()
    out, n = 0.0, 0
    try:
        if case.get("end_time"):
            while net.time < case["end_time"]:
                net.step()
                n += 1
                if r.T >= case["T"] + 400.0:
                    out = net.time
                    break
                if n > 200000:
                    break
        else:
            for n in range(1, (case.get("max_steps") or 10000) + 1):
                net.step()
                if r.T >= case["T"] + 400.0:
                    out = net.time
                    break
                if net.time > 1e100:
                    break
    except ct.CanteraError:
        out = 0.0
    _cache[k] = out
    _cache[k + ("steps",)] = n
    return out


def ignition_profile(text, phase, case):
    """Temperatures, pressures and mass fractions from the start to the end of a case, or None."""
    import cantera as ct

    k = _key(text, phase, "profile", case)
    if k in _cache:
        return _cache[k]
    gas = _fresh(text, phase)
    set_state(gas, case)
    if case["kind"] == "constant pressure":
        r = ct.IdealGasConstPressureMoleReactor(gas, clone=False)
    else:
        r = ct.IdealGasMoleReactor(gas, clone=False)
    net = REAL["ReactorNet"]([r])
    net.preconditioner = ct.AdaptivePreconditioner()
    rows = [(r.T, r.phase.P, r.Y.copy())]
    out = None
    try:
        if case.get("end_time"):
            while net.time < case["end_time"] and len(rows) < 200000:
                net.step()
                rows.append((r.T, r.phase.P, r.Y.copy()))
            out = rows
        else:
            net.reinitialize()
            top = old = net.get_state()
            for _ in range(case.get("max_steps") or 10000):
                net.step()
                rows.append((r.T, r.phase.P, r.Y.copy()))
                new = net.get_state()
                top = np.maximum(top, new)
                res = np.linalg.norm((new - old) / (top + net.atol)) / np.sqrt(net.n_vars)
                old = new
                if res < 10 * net.rtol:
                    out = rows
                    break
    except ct.CanteraError:
        out = None
    _cache[k] = out
    return out


def check_ignition_rows(text, phase, case, data, width):
    """None, or how the sampled rows of an ignition case differ from the documented ones:
    the first states at which the temperature reaches each twentieth of its total rise."""
    prof = ignition_profile(text, phase, case)
    if prof is None:
        return None
    T = np.array([p[0] for p in prof])
    rise = T[-1] - T[0]
    for k in range(20):
        target = T[0] + 0.05 * (k + 1) * rise
        i = int(np.argmax(T >= target - 1e-9 * abs(target)))
        row = np.asarray(data[k * width : (k + 1) * width])
        slack = 0.02 * rise + abs(T[i] - T[max(i - 1, 0)]) + abs(T[min(i + 1, len(T) - 1)] - T[i])
        if abs(row[0] - T[i]) > slack:
            return f"state {k}: T={row[0]:.2f} K, expected {T[i]:.2f} K (+-{slack:.1f})"
        lo, hi = max(i - 2, 0), min(i + 3, len(T))
        best = min(float(np.max(np.abs(row[2:] - prof[j][2]))) for j in range(lo, hi))
        if best > 0.03:
            return f"state {k}: composition off by {best:.3f} from the trajectory near {T[i]:.1f} K"
        if abs(row[1] - prof[i][1]) > 0.05 * prof[i][1]:
            return f"state {k}: P={row[1]:.6g} Pa, expected {prof[i][1]:.6g}"
    return None


def ignition_steps(text, phase, case):
    ignition_delay(text, phase, case)
    return _cache[_key(text, phase, "ign", case) + ("steps",)]


def flame_speed(text, phase, case, floor=None):
    import cantera as ct

    k = _key(text, phase, "flame", case, (floor,))
    if k in _cache:
        return _cache[k]
    gas = _fresh(text, phase)
    set_state(gas, case)
    W.cfg["_oracle"] = True
    try:
        s, _, _ = flame_speed_model(gas, gas.T, gas.P, gas.Y.copy())
    except ct.CanteraError:
        s = 0.0
    finally:
        W.cfg.pop("_oracle", None)
    if not np.isfinite(s) or s <= (0.05 if floor is None else floor):
        s = 0.0
    _cache[k] = float(s)
    return _cache[k]


def psr_metrics(text, phase, case, scratch):
    """[tau_ext, T_mid, T_near] from a fresh process, or zeros."""
    k = _key(text, phase, "psr", case)
    if k in _cache:
        return _cache[k]
    from .proc import Disk, live

    d = Disk(scratch)
    d.put("m.yaml", text)
    life = live(d, [{"op": "metrics", "model": "m.yaml", "psr": [case], "phase": phase}], {})
    d.destroy()
    out = list(life.value()["metrics"]) if life.end == "exit" and life.ok() else [0.0] * 3
    _cache[k] = out
    return out


def model_species(text, phase):
    return _solution(text, phase).species_names


def flame_factor(faults, t0, species):
    """What the faults leave of a flame's speed (1.0: all of it; 0.0: no flame)."""
    out = 1.0
    for f in faults:
        if f["kind"] != "flame" or (f.get("t0") is not None and abs(f["t0"] - t0) > 0.01):
            continue
        if fault_applies(f, species):
            x = f.get("exc", "cantera")
            # otherwise an error, or a speed below any floor
            if not x.startswith("base"):
                out *= float(x[5:]) if x.startswith("scale") else 0.0
    return out


def flame_base(faults, t0, species):
    """The speed prescribed for a flame; None if it is the computed one."""
    out = None
    for f in faults:
        if f["kind"] == "flame" and f.get("exc", "").startswith("base"):
            if (f.get("t0") is None or abs(f["t0"] - t0) < 0.01) and fault_applies(f, species):
                out = float(f["exc"][4:])
    return out


def metrics(text, op, scratch, faults=(), candidate=True):
    """Expected metric vector of a model for the conditions of ``op`` (ignition, PSR, flame)."""
    phase = op.get("phase", "")
    sp = model_species(text, phase)
    out = []
    for c in op.get("ign", []):
        bad = [
            f for f in faults
            if f["kind"] == "ign" and (f.get("t0") is None or abs(f["t0"] - c["T"]) < 0.01)
            and fault_applies(f, sp)
        ]
        out.append(0.0 if bad else ignition_delay(text, phase, c))
    for c in op.get("psr", []):
        bad = [
            f for f in faults
            if f["kind"] == "psr" and (f.get("t0") is None or abs(f["t0"] - c["T"]) < 0.01)
            and fault_applies(f, sp)
        ]
        out += [0.0] * 3 if bad else psr_metrics(text, phase, c, scratch)
    floor = 0.05 if op.get("mfs") is None else op.get("mfs")
    for c in op.get("flame", []):
        k = flame_factor(faults, c["T"], sp)
        b = flame_base(faults, c["T"], sp)
        v = 0.0 if k == 0.0 else flame_speed(text, phase, c, 0.0)
        v = k * b if v and b is not None else k * v
        out.append(v if v > floor else 0.0)
    return out


def error(base, test):
    """Maximum relative error in percent; 100 if any tested metric is zero."""
    base, test = np.asarray(base), np.asarray(test)
    if np.any(test == 0.0):
        return 100.0
    return float(100.0 * np.max(np.abs(base - test) / base))


# ---- skeletal models -----------------------------------------------------------------------


def trimmed(text, phase, keep):
    """The model restricted to ``keep``: species order kept, every reaction touching a removed
    species gone.  Returned as YAML text, built independently of pymars.reduce_model."""
    import cantera as ct

    keep = list(keep)
    k = ("trim", hashlib.sha1(text.encode()).hexdigest(), phase, tuple(keep))
    if k in _cache:
        return _cache[k]
    src = ct.Solution(yaml=text) if not phase else ct.Solution(yaml=text, name=phase)
    kset = set(keep)
    sp = [s for s in src.species() if s.name in kset]
    rx = []
    for r in src.reactions():
        tb = r.third_body
        if tb is not None and not tb.default_efficiency and len(tb.efficiencies) == 1:
            if not set(tb.efficiencies) <= kset:
                continue
        if not (set(r.reactants) | set(r.products)) <= kset:
            continue
        if tb is not None:
            tb.efficiencies = {s: v for s, v in tb.efficiencies.items() if s in kset}
        rx.append(r)
    g = ct.Solution(
        species=sp, reactions=rx, thermo="ideal-gas", kinetics="bulk",
        transport_model=src.transport_model,
    )
    g.TP = src.TP
    if phase:
        g.name = phase
    else:
        g.name = "reduced"
    out = g.write_yaml()
    _cache[k] = out
    return out


def rates(gas, state):
    gas.TPY = state[0], state[1], state[2:]
    nu = gas.product_stoich_coeffs - gas.reactant_stoich_coeffs
    part = (gas.product_stoich_coeffs != 0) | (gas.reactant_stoich_coeffs != 0)
    q = gas.net_rates_of_progress
    return nu * q, part.astype(float)


def coefficients(method, gas, state):
    """Direct interaction coefficients r[A, B] of one sampled state (theory guide)."""
    w, part = rates(gas, state)
    n = gas.n_species
    if method == "DRG":
        a = np.abs(w)
        num = a @ part.T
        den = a.sum(axis=1)
    elif method == "DRGEP":
        num = np.abs(w @ part.T)
        den = np.maximum(np.maximum(w, 0).sum(axis=1), np.maximum(-w, 0).sum(axis=1))
    else:
        p, c = np.maximum(w, 0), np.maximum(-w, 0)
        den = np.maximum(p.sum(axis=1), c.sum(axis=1))
        with np.errstate(all="ignore"):
            rp = np.where(den[:, None] != 0, (p @ part.T) / den[:, None], 0.0)
            rc = np.where(den[:, None] != 0, (c @ part.T) / den[:, None], 0.0)
        np.fill_diagonal(rp, 0.0)
        np.fill_diagonal(rc, 0.0)
        r = rp + rc + rp @ rp + rc @ rc
        np.fill_diagonal(r, 0.0)
        return r
    with np.errstate(all="ignore"):
        r = np.where(den[:, None] != 0, num / den[:, None], 0.0)
    np.fill_diagonal(r, 0.0)
    return r


def bottleneck(r, names, targets):
    """Largest threshold at which each species is still reached from a target (DRG/PFA)."""
    n = len(names)
    best = np.full(n, -1.0)
    for t in targets:
        best[names.index(t)] = np.inf
    done = np.zeros(n, bool)
    for _ in range(n):
        i = int(np.argmax(np.where(done, -2.0, best)))
        if best[i] <= 0:
            break
        done[i] = True
        best = np.maximum(best, np.minimum(best[i], r[i]))
    return best


def path_product(r, names, targets):
    """Overall interaction coefficients (DRGEP): best path product from any target."""
    n = len(names)
    best = np.zeros(n)
    for t in targets:
        best[names.index(t)] = 1.0
    for _ in range(n):
        new = np.maximum(best, (best[:, None] * r).max(axis=0))
        if np.array_equal(new, best):
            break
        best = new
    for t in targets:
        best[names.index(t)] = max(best[names.index(t)], 1.0)
    return best


def importance(method, text, phase, states, targets):
    """Per species: a species not otherwise protected is removed iff its value < threshold."""
    gas = _solution(text, phase)
    names = gas.species_names
    tot = None
    for s in states:
        r = coefficients(method, gas, np.asarray(s))
        v = path_product(r, names, targets) if method == "DRGEP" else bottleneck(r, names, targets)
        tot = v if tot is None else np.maximum(tot, v)
    return dict(zip(names, [float(x) for x in tot]))


FLOOR = {"DRG": 1e-5, "PFA": 1e-5, "DRGEP": 1e-6}


def ladder(method, imp, protect, targets, names, limit, evaluate, tie=1e-9, etie=0.05):
    """Documented threshold search.

    Returns dict(final=species list or None (SystemExit), error, iterations, evaluated).
    ``evaluate(species tuple)`` -> error percent.
    """
    thr, inc, first = 0.01, 0.01, True
    evaluated = {}
    accepted = None
    its = 0

    def close(x):
        return abs(x - limit) <= etie

    while True:
        its += 1
        keep = []
        for s in names:
            v = imp[s]
            if s in protect:
                keep.append(s)
                continue
            if np.isfinite(v) and abs(v - thr) <= tie * max(abs(v), thr):
                raise Ambiguous(f"coefficient of {s} ties with threshold {thr}")
            if v >= thr:
                keep.append(s)
        keep = tuple(keep)
        if len(keep) == len(names):
            e = 0.0 if accepted is None or len(accepted[0]) == len(names) else accepted[1]
        else:
            if keep not in evaluated:
                evaluated[keep] = evaluate(keep)
            e = evaluated[keep]
        if e != 100.0 and close(e):
            raise Ambiguous("error ties with the limit")
        if e > limit:
            if first:
                thr /= 10
                inc /= 10
                if thr <= FLOOR[method]:
                    return {"final": None, "its": its, "evaluated": evaluated}
                continue
            return {"final": accepted[0], "its": its, "evaluated": evaluated, "thr": accepted[2]}
        accepted = (keep, e, thr)
        first = False
        if set(keep) <= set(protect):
            return {"final": keep, "its": its, "evaluated": evaluated, "thr": thr, "exhausted": True}
        thr += inc
