"""C12: sensitivity analysis removes species in the documented order.

A run is one sensitivity analysis (alone, on given candidates, or after a graph-based reduction) with
sticky failures of chosen candidate models and cases, any worker count and schedule.  The reference
follows the documented removal order over errors it computes itself with the real integrator, branching
wherever two candidates tie within numerical noise; the outcome must be one of those it allows.
"""

from .. import mechs
from ..harness import Ambiguous, Skip, Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 260}, "thorough": {"runs": 5000, "deadline": 3400}}
RULE = (
    "one run = one sensitivity analysis under a candidate-failure pattern, compared with the documented "
    "removal order; non-trivial when at least one species was removed; distinct by (how, algorithm, limit, "
    "species kept, candidates)"
)
ASSUMPTIONS = ["candidates whose induced errors tie within 0.1 percentage points may be removed in either order"]


def gen(rng, i, tier):
    z = rng.random()
    # species whose removal costs little, so that there is something to remove
    mech = mechs.spec(rng, small=True)
    mech["clones"] = [[rng.choice(mechs.CLONABLE), round(10 ** rng.uniform(-3.5, -0.3), 5)] for _ in range(rng.choice([0, 1, 2, 3]))]
    mech["inert"] = rng.choice([0, 0, 1])
    if z < 0.45:
        s = refs.scenario(rng, (), 1.0, p_fault=0.4, mech=mech)
        s["red"]["how"] = "sa"
    elif z < 0.6:
        s = refs.scenario(rng, (), 1.0, p_fault=0.4, mech=mech)
        s["red"]["how"] = "main"
    else:
        s = refs.scenario(rng, ("DRGEP", "DRGEP", "DRGEP", "PFA", "DRG"), 1.0, p_fault=0.4, mech=mech)
    r = s["red"]
    r["algo"] = rng.choice(["initial", "greedy"])
    r["limit"] = rng.choice([1.0, 5.0, 10.0, 20.0, 40.0, 60.0, 80.0, 95.0, 100.0 if i % 5 == 0 else 60.0])
    if r.get("method") == "DRG":
        r.pop("upper", None)
    elif r.get("method") == "DRGEP":
        r["upper"] = rng.choice([None, 0.05, 0.1, 0.2, 0.4, 0.9])
    if r["how"] == "sa":
        names = mechs.names(s["mech"])
        if rng.random() < 0.6:
            k = rng.choice([1, 2, 3, 5])
            prot = r["targets"] + r["safe"]
            if rng.random() < 0.7:
                names = [x for x in names if x not in prot]
            r["limbo"] = rng.sample(names, min(k, len(names)))      # may name protected species: never removed
        r["start_error"] = rng.choice([0.0, 0.0, 0.0, 0.2, 3.0])
    if i % 4:
        refs.flame_landscape(rng, s)
        r["limit"] = rng.choice([2.0, 5.0, 10.0, 20.0, 30.0, 40.0])
    return s


def run(s, ctx):
    import cantera as ct

    r = s["red"]
    R = refs.Reference(s, ctx, refs.fault_plan(s))
    if not R.valid():
        return {"nontrivial": False}
    what = (
        f"{r['algo']} sensitivity analysis"
        + (f" after {r['method']} (upper {r.get('upper')})" if r.get("method") else "")
        + f", limit {r['limit']}, protected {r['targets'] + r['safe']}, given {r.get('limbo')}, "
        + f"start error {r.get('start_error', 0.0)}, failures {[(f['kind'], f['case'], f['when']) for f in s['faults']]}"
    )
    protect = set(r["targets"]) | set(r["safe"])
    try:
        if r.get("method"):
            ref = R.ladder(r)
            if ref is None:
                return {"nontrivial": False}
            if ref["final"] is None:
                start = None
            else:
                start = list(ref["final"])
                err = 0.0 if len(start) == len(R.names) else R.error(start)
                cands = R.limbo(r, start) if r["method"] == "DRGEP" else []
        else:
            start, err, cands = list(R.names), r.get("start_error", 0.0) if r["how"] == "sa" else 0.0, list(r.get("limbo") or [])
        if start is not None:
            cands = [x for x in (cands or start) if x not in protect]
            out = R.sensitivity(start, err, cands, r["limit"], r["algo"])
    except Ambiguous as e:
        raise Skip(str(e))
    except refs.TooMany:
        raise Skip("too many ties")
    L = ctx.live(c.put_model(ctx, s), [c.reduce_op(s)], refs.life_cfg(s), "sensitivity analysis")
    c.must_finish(L, what)
    if start is None:
        if L.ok() or L.results[-1]["exc"] != "SystemExit":
            raise Violation("should-give-up", f"{what}: {L.describe()}, expected the threshold search to give up")
        return {"nontrivial": False}
    if not L.ok():
        raise Violation("aborted", f"{what}: {L.describe()}")
    v = L.value()
    got = v["model"]["species"]
    if set(got) - set(start) or set(start) - set(got) - set(cands):
        raise Violation("not-a-candidate", f"{what}: removed {sorted(set(start) - set(got))}, candidates {cands}")
    kept = tuple(got)
    match = [k for k in out if k == kept]
    if not match:
        raise Violation(
            "wrong-removals",
            f"{what}: removed {[x for x in start if x not in got]}, expected "
            + " or ".join(str([x for x in start if x not in k]) for k in list(out)[:3]),
        )
    if abs(v["error"] - out[kept]) > refs.TOL:
        raise Violation("wrong-error", f"{what}: reports {v['error']}, expected {out[kept]}")
    if len(kept) < len(R.names):
        want = [x.equation for x in ct.Solution(yaml=R.model(kept)).reactions()]
        if v["model"]["reactions"] != want:
            raise Violation("wrong-reactions", f"{what}: {len(v['model']['reactions'])} reactions, expected {len(want)}")
    n = len(start) - len(kept)
    ctx.probe("order-certain" if len(out) == 1 else "order-with-ties")
    if any(R.cache.get(k) == 100.0 for k in R.cache):
        ctx.probe("failing-candidates")
    return {
        "key": [r["how"], r.get("method"), r["algo"], r["limit"], list(kept), sorted(cands)],
        "nontrivial": n > 0,
        "signature": [sorted(R.cache), len(L.fired)],
        "sample": {"what": what, "removed": [x for x in start if x not in kept], "error": v["error"], "models_evaluated": len(R.cache)},
    }


def shrink(s):
    r = s["red"]
    if r.get("limbo"):
        for j in range(len(r["limbo"])):
            if len(r["limbo"]) > 1:
                yield dict(s, red=dict(r, limbo=r["limbo"][:j] + r["limbo"][j + 1 :]))
    if r.get("start_error"):
        yield dict(s, red=dict(r, start_error=0.0))
    yield from refs.shrink(s)
