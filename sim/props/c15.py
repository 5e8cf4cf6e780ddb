"""C15: stirred-reactor tracing under failing corrections gives an error or a right answer.

A run traces one response curve while chosen calls of the root finder fail: "soft" (the finder reports no
progress, the fall-back Newton solver takes over), "hard" (the fall-back meets a singular matrix as well, so
the step must be cut), returning NaN, or with the kinetics themselves raising for a stretch of evaluations.
Seeds, burning branch, fold and - for a full march - middle branch are all hit, with default and finer step
settings.  Whatever is returned is compared with an independent trace of the same equations
(``sim/psrref.py``, which solves for the residence time at a given temperature and uses nothing of pymars).
Part of the runs go through ``sample`` with several reactors and workers.
"""

from .. import gen as g, mechs
from ..harness import Skip, Violation
from . import common as c

BUDGET = {"quick": {"runs": 260}, "thorough": {"runs": 9000, "deadline": 3400}}
RULE = (
    "one run = one model x inlet x step settings x set of failing corrections; non-trivial when a failure fired; "
    "distinct by (march, settings, failure kinds and positions in tenths of the trace)"
)
ASSUMPTIONS = [
    "an undisturbed trace may give up with an error (default steps do on about a tenth of the inlets); success is required only with "
    "fine steps, when undisturbed traces with these and half these steps succeed and at most three corrections fail, one of them for good",
]


def window(rng):
    z = rng.random()
    at = rng.choice([0, 1]) if z < 0.1 else -rng.randint(1, 6) if z < 0.45 else rng.randrange(1000)
    f = {"at": at, "n": rng.choice([1, 1, 1, 2, 3, 6, 12, 40])}
    z = rng.random()
    if z < 0.5:
        f["hard"] = True
    elif z < 0.65:
        f["nan"] = True
        f["hard"] = rng.random() < 0.5
    return f


def gen(rng, i, tier):
    s = {"mech": mechs.spec(rng, small=True), "path": ""}
    s["psr"] = g.psr_cases(rng, 1)
    s["threads"] = 1
    s["stop"] = rng.random() < 0.65
    z = rng.random()
    kw = {}
    if not s["stop"]:
        kw["max_steps"] = rng.choice([150, 300, 400])
    elif z < 0.1:
        kw["max_steps"] = rng.choice([1, 5, 20, 40, 100])
    elif z < 0.4:
        kw["ds_max"] = rng.choice([0.05, 0.1, 0.2, 0.3])
    elif z < 0.5:
        kw["ds0"] = rng.choice([0.02, 0.2])
    elif z < 0.55:
        kw["ds_min"] = rng.choice([1e-4, 0.01, 0.05])
    s["kw"] = kw
    s["windows"] = [window(rng) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    s["kin"] = []
    if rng.random() < 0.15:
        at = rng.choice([1, rng.randint(2, 60), rng.randint(60, 2000)])
        s["kin"] = [{"at": at, "until": at + rng.choice([1, 2, 10, 200]), "exc": rng.choice(["cantera", "cantera", "runtime"])}]
        if rng.random() < 0.5:
            s["windows"] = []
    if rng.random() < 0.25:
        a = rng.choice([1.0, 1.0, 0.8, 0.5, 0.3])
        kw["tau_start"], kw["tau_second"] = a, round(a * rng.choice([0.5, 0.9, 0.95, 0.99]), 4)
        if rng.random() < 0.5:
            s["windows"].append({"at": rng.choice([0, 1]), "n": 1, "hard": True})
    z = rng.random()
    if z < 0.3:
        # fine steps, failures that must be survived
        s["stop"], s["kin"] = True, []
        s["kw"] = {"ds_max": rng.choice([0.05, 0.05, 0.03]), "ds0": rng.choice([0.05, 0.02])}
        s["windows"] = [dict(window(rng), hard=False, n=1) for _ in range(rng.choice([0, 1, 2]))]
        if rng.random() < 0.7:
            s["windows"].append({"at": -rng.randint(1, 25) if rng.random() < 0.4 else rng.randint(40, 999), "n": 1, "hard": True})
        s["survive"] = True
    elif z < 0.5:
        s["sample"] = True
        s["psr"] = g.psr_cases(rng, rng.choice([1, 2, 3]))
        s["threads"] = rng.choice([1, 2, 3])
        s["stop"], s["kw"] = True, {}
        s["sched"], s["env"] = g.sched(rng), g.env(rng)
    return s


def engine_of(s, total):
    out = []
    for w in s["windows"]:
        a = w["at"]
        at = a + 1 if 0 <= a <= 1 else total + 1 + a if a < 0 else 3 + (total - 2) * a // 1000
        out.append({"kind": "root", "at": max(1, at), "until": max(1, at) + w["n"], "hard": w.get("hard", False), "nan": w.get("nan", False)})
    for k in s["kin"]:
        out.append(dict(k, kind="psr"))
    return out


def psr_op(s, **kw):
    return {"op": "psr", "model": s["mech"].get("file", "mech.yaml"), "phase": s["mech"].get("phase", ""), "psr": s["psr"], "stop": s["stop"],
            "kw": dict(s["kw"], **kw)}


def fold_error(s):
    """How far above the fold the smallest residence time of a trace with these steps may lie, in ln tau."""
    return min(0.3, s["kw"].get("ds_max", 0.4) * 0.5) + 0.01


def check_curve(s, v, C, what):
    import numpy as np

    b = np.array(v["branch"])
    kw = s["kw"]
    if len(b) > kw.get("max_steps", 6000) + 2:
        raise Violation("too-long", f"{what}: {len(b)} points for at most {kw.get('max_steps', 6000)} steps")
    if not (len(b) >= 3 and np.isfinite(b).all()):
        raise Violation("wrong-curve", f"{what}: the curve has {len(b)} points, or values that are not numbers")
    tau0 = np.array([kw.get("tau_start", 1.0), kw.get("tau_second", 0.5)])
    if not np.allclose(b[:2, 0], tau0, rtol=1e-12):
        raise Violation("wrong-curve", f"{what}: the curve starts at residence times {b[:2, 0]}")
    for k in (0, 1):
        T = C.burning(tau0[k])
        if T is not None and 0.02 < abs(b[k, 1] - T) < 100.0:
            raise Violation("off-curve", f"{what}: the curve starts at tau={tau0[k]:.4g} with T={b[k, 1]:.3f} K, a reactor burns there at {T:.3f} K")
    pts = v["points"]
    if sorted(pts) != ["extinction", "log_mid", "near_0.1s"]:
        raise Violation("wrong-points", f"{what}: points {sorted(pts)}")
    e = pts["extinction"]
    j = int(np.argmin(b[:, 0]))
    if e[0] != b[j, 0] or e[1] != b[j, 1]:
        raise Violation("wrong-extinction", f"{what}: extinction point at {e[:2]}, smallest residence time of the curve at {b[j]}")
    if not (np.diff(b[: j + 1, 0]) < 0).all():
        raise Violation("wrong-curve", f"{what}: residence time does not fall along the burning branch")
    d = np.log(e[0]) - C.lt_ext
    if not -2e-3 <= d <= fold_error(s):
        raise Violation("wrong-extinction", f"{what}: extinction at tau={e[0]:.4g}, {d:+.4f} in ln tau from the fold of the curve (T {e[1]:.1f}, fold {C.T_ext:.1f})")
    up = b[: j + 1]
    for name, target in (("near_0.1s", 0.1), ("log_mid", None)):
        p = pts[name]
        if target is None:
            target = float(np.sqrt(e[0] * pts["near_0.1s"][0]))
        best = np.abs(up[:, 0] - target).min()
        if abs(abs(p[0] - target) - best) > 1e-9 * target:
            raise Violation("wrong-points", f"{what}: point {name} at tau={p[0]:.6g}, the branch has one {best:.3g} s from {target:.6g}")
        if not ((up[:, 0] == p[0]) & (up[:, 1] == p[1])).any():
            raise Violation("wrong-points", f"{what}: point {name} at {p[:2]} is not on the burning branch")
    for name, p in pts.items():
        r = np.linalg.norm(C.residual(np.array(p[2]), p[1], p[0]))
        if not r <= 2e-6:
            raise Violation("not-steady", f"{what}: point {name} leaves a residual of {r:.3g} in the steady equations")
    for k, (tau, T) in enumerate(b):
        # the reference follows the curve down to where its temperature stops falling
        if k > j and T <= C.a[-1, 0] + 3.0:
            break
        q = C.distance(tau, T)
        if q is None:
            raise Violation("off-curve", f"{what}: point {k} (tau={tau:.4g}, T={T:.1f}) is outside the response curve")
        if q > (0.02 if k <= j else 0.06):
            raise Violation("off-curve", f"{what}: point {k} (tau={tau:.4g}, T={T:.1f}) is {q:.3f} in ln tau off the response curve")
    return d


def run(s, ctx):
    from .. import psrref

    text, phase = mechs.text(s["mech"]), s["mech"].get("phase", "")
    if s.get("sample"):
        return run_sample(s, ctx)
    R = ctx.live(c.put_model(ctx, s), [psr_op(s)], {}, "undisturbed trace")
    if R.end == "hang":
        raise Violation("hang", "an undisturbed trace does not end")
    if R.end != "exit":
        raise Violation("abnormal-end", f"undisturbed trace: {R.describe()}")
    total = int(R.counters.get("root_calls") or 0)
    lives = [("an undisturbed trace", R)]
    eng = engine_of(s, total)
    what = f"trace with {eng}, {s['kw']}, {'to extinction' if s['stop'] else 'full'}"
    if eng:
        L = ctx.live(c.put_model(ctx, s), [psr_op(s)], {"engine": eng}, "trace")
        c.must_finish(L, what)
        lives.append((what, L))
    else:
        L = R
    got = False
    C = None
    for w, x in lives:
        if not x.ok():
            continue
        if C is None:
            b = x.value()["branch"]
            C = psrref.curve(text, phase, s["psr"][0], None if s["stop"] else min(p[1] for p in b))
            if not C.ok:
                raise Skip("no reference curve")
        check_curve(s, x.value(), C, w)
        got = True
    fired = sum(int(n) for n in L.fired.values())
    if s.get("survive") and R.ok() and not L.ok():
        H = ctx.live(c.put_model(ctx, s), [psr_op(s, ds_max=s["kw"]["ds_max"] / 2)], {}, "undisturbed trace, finer")
        hard = sum(w["n"] for w in s["windows"] if w.get("hard"))
        seeding = any(e["at"] <= 2 for e in eng)
        if H.ok() and not seeding and hard <= 1 and sum(w["n"] for w in s["windows"]) <= 3:
            raise Violation("not-survived", f"{what}: {L.describe()}, although the undisturbed trace succeeds")
    if got:
        ctx.probe("curves")
    return {
        "key": [s["stop"], sorted(s["kw"].items()), [[w["at"] // 100, min(w["n"], 4), bool(w.get("hard")), bool(w.get("nan"))] for w in s["windows"]],
                [[k["at"] // 50, k["exc"]] for k in s["kin"]]],
        "nontrivial": fired > 0,
        "signature": [L.ok(), eng, s["psr"], len(L.value()["branch"]) if L.ok() else 0],
        "sample": {"what": what, "end": L.describe() if not L.ok() else f"{len(L.value()['branch'])} points", "points": {
            k: p[:2] for k, p in L.value()["points"].items()} if L.ok() else {}},
    }


def run_sample(s, ctx):
    """Starting metrics: every reactor's three values come from its own curve, or the run stops."""
    import numpy as np

    from .. import psrref

    text, phase = mechs.text(s["mech"]), s["mech"].get("phase", "")
    eng = engine_of(s, 40)
    cfg = dict(s["env"], sched=s["sched"], engine=eng)
    L = ctx.live(c.put_model(ctx, s), [c.base_op(s, "sample")], cfg, "starting model")
    what = f"sampling {len(s['psr'])} reactors with {eng}, threads={s['threads']}"
    c.must_finish(L, what)
    fired = sum(int(n) for n in L.fired.values())
    if L.ok():
        v = L.value()
        width = v["shape"][1]
        if v["shape"][0] != 3 * len(s["psr"]) or len(v["metrics"]) != 3 * len(s["psr"]):
            raise Violation("wrong-points", f"{what}: {v['shape'][0]} states, {len(v['metrics'])} metrics")
        rows = np.array(v["data"]).reshape(v["shape"])
        for k, case in enumerate(s["psr"]):
            C = psrref.curve(text, phase, case)
            if not C.ok:
                raise Skip("no reference curve")
            tau, Tm, Tn = v["metrics"][3 * k : 3 * k + 3]
            d = np.log(tau) - C.lt_ext if tau > 0 else 99.0
            if not -2e-3 <= d <= fold_error(s):
                raise Violation("wrong-extinction", f"{what}: reactor {k} extinguishes at {tau}, fold at {np.exp(C.lt_ext):.5g}")
            block = rows[3 * k : 3 * k + 3]
            for r in block:
                # the residence time of a state follows from its energy-independent balances: the curve at its temperature
                T, Y = r[0], r[2:width]
                if not (C.T_ext - 150 <= T <= C.T1 + 1.0):
                    raise Violation("off-curve", f"{what}: reactor {k} sampled at T={T:.1f}, burning branch {C.T_ext:.1f}..{C.T1:.1f}")
                lt = float(np.interp(T, C.a[::-1, 0], C.a[::-1, 1]))
                best = min(np.linalg.norm(C.residual(Y, T, float(np.exp(lt + e)))) for e in np.linspace(-0.05, 0.05, 41))
                if not best <= 5e-3:
                    raise Violation("not-steady", f"{what}: reactor {k}, state at T={T:.1f} is not a steady state (residual {best:.2g})")
            if not all(any(abs(x - y) < 1e-6 * y for y in block[:, 0]) for x in (Tm, Tn)):
                raise Violation("wrong-points", f"{what}: reactor {k} metrics {Tm}, {Tn} are not its sampled temperatures {block[:, 0]}")
        ctx.probe("sampled")
    return {
        "key": ["sample", len(s["psr"]), s["threads"], [[w["at"] // 100, min(w["n"], 4), bool(w.get("hard"))] for w in s["windows"]]],
        "nontrivial": fired > 0, "signature": [L.choices[:60], eng, L.ok()],
        "sample": {"what": what, "end": L.describe() if not L.ok() else L.value()["metrics"]},
    }


def shrink(s):
    for k in ("windows", "kin"):
        for j in range(len(s[k])):
            yield dict(s, **{k: s[k][:j] + s[k][j + 1 :]})
    for j, w in enumerate(s["windows"]):
        def put(**kw):
            return dict(s, windows=s["windows"][:j] + [dict(w, **kw)] + s["windows"][j + 1 :])
        if w["n"] > 1:
            yield put(n=1)
            yield put(n=w["n"] // 2)
        if w.get("nan"):
            yield put(nan=False)
        if w.get("hard"):
            yield put(hard=False)
    for k in list(s["kw"]):
        if k != "ds_max" or not s.get("survive"):
            yield dict(s, kw={a: b for a, b in s["kw"].items() if a != k})
    if not s["stop"]:
        yield dict(s, stop=True, kw={a: b for a, b in s["kw"].items() if a != "max_steps"})
    for x in c.shrink_common(s):
        yield x
