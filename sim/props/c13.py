"""C13: the graph-based threshold search follows its documented ladder.

A run is one whole DRG, DRGEP or PFA reduction over a seeded mechanism, targets, limit and case mix,
with sticky failures of chosen candidates and cases, any worker count and schedule.  The reference runs
the documented ladder over coefficients recomputed from the sampled states and errors recomputed with the
real integrator, with the same candidates failing.  Species, reactions and error must agree, and the search
must give up exactly when the reference does.  Near-ties are counted as undecided.
"""

from .. import mechs
from ..harness import Ambiguous, Skip, Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 260}, "thorough": {"runs": 6000, "deadline": 3400}}
RULE = (
    "one run = one reduction under a candidate-failure pattern, compared with the reference ladder; non-trivial "
    "when the search evaluated at least two candidates or gave up; distinct by (method, limit, species kept, thresholds tried)"
)
ASSUMPTIONS = ["runs in which a coefficient ties with a threshold or an error with the limit are undecided"]


FLOOR = {"DRG": 1e-4, "PFA": 1e-4, "DRGEP": 1e-5}     # coefficients that the finest ladder tells apart


def gen(rng, i, tier):
    s = refs.scenario(rng, ("DRG", "DRGEP", "PFA"), 0.0, how=("main", "graph", "graph"))
    s["red"]["limit"] = rng.choice([0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 20.0, 40.0, 80.0])
    if i % 4:
        # species of graded importance, some of which cannot be spared: the ladder is refined, then climbed
        s["mech"]["clones"] = [[rng.choice(mechs.CLONABLE), round(10 ** rng.uniform(-4.5, -0.5), 6)] for _ in range(rng.choice([1, 2, 3]))]
        fine = rng.random() < 0.35
        if fine:
            # more than one refinement, and several rungs on the finest ladder
            s["mech"]["clones"] = [[rng.choice(mechs.CLONABLE), round(10 ** x, 7)] for x in [rng.uniform(-4.0, -3.0)] + [rng.uniform(-5.5, -3.3) for _ in range(rng.choice([1, 2, 3]))]]
            rng.shuffle(s["mech"]["clones"])
        refs.flame_landscape(rng, s, 0.4, ign=0.0 if fine else 0.6)
        s["red"]["limit"] = rng.choice([1.0, 5.0, 10.0, 20.0])
        s["graded"] = rng.random() if fine or rng.random() < 0.5 else None
        if not fine and rng.random() < 0.4:
            s["critical"] = rng.random()
            s["graded"] = None
            s["red"]["limit"] = rng.choice([10.0, 20.0, 40.0])
        s["band"] = rng.choice([1e-3, 5e-4]) if fine else 0.01
        n = len(mechs.names(s["mech"]))
        if rng.random() < 0.3:
            s["faults"].append({"kind": "flame", "case": 0, "when": {"n_equal": n - rng.randint(1, 3)}, "exc": "cantera", "at": 2})
    return s


def critical(s, R, u):
    """A species that cannot be spared, such that the outcome depends on some of the sampled states alone."""
    r = s["red"]
    st = R.states()
    if st is None or R.coefficients(r) is None:
        return None
    imp = R.imp
    blocks, at = [], 0
    for k, rows in (("ign", 20), ("psr", 3), ("flame", 20)):
        for _ in s[k]:
            blocks.append((at, at + rows))
            at += rows
    parts = [st[:a] + st[b:] for a, b in blocks if len(blocks) > 1] + [st[1:], st[:-1], st[::2]]
    if s["ign"] and s["flame"]:
        n = 20 * len(s["ign"])
        parts += [st[:n], st[n:]]
    free = [x for x in R.names if x not in r["targets"] + r["safe"]]
    found = {}
    for k, p in enumerate(parts):
        less = R.oracle.importance(r["method"], R.text, R.phase, p, r["targets"])
        for y in free:
            if not FLOOR[r["method"]] < imp[y] < 1.0:
                continue
            inc = 0.01
            while inc > imp[y]:
                inc /= 10
            t = int(imp[y] / inc) * inc
            if any(less[x] < 0.999 * t and imp[x] > 1.001 * t and abs(imp[y] - t) > 1e-3 * t for x in free if x != y):
                found[k] = found.get(k, []) + [y]
    if not found:
        return None
    u *= len(found)
    ys = found[sorted(found)[int(u)]]
    return ys[int(u % 1 * len(ys))]


def run(s, ctx):
    R = refs.Reference(s, ctx, refs.fault_plan(s))
    if not R.valid():
        return {"nontrivial": False}
    r = s["red"]
    if s.get("critical") is not None:
        y = critical(s, R, s["critical"])
        s["critical"] = None
        if y is not None:
            keep = [f for f in s["faults"] if f["exc"].startswith("base")]
            s["faults"] = [dict(kind="flame", case=0, when={"lacks": [y]}, exc="cantera", at=1)] + keep
            R.faults = refs.fault_plan(s)
            ctx.probe("critical")
    if s.get("graded") is not None:
        # a species of little importance cannot be spared: only a finer ladder finds what can be removed
        imp = R.coefficients(r)
        if imp is None:
            return {"nontrivial": False}
        low = sorted((v, n) for n, v in imp.items() if n not in r["targets"] + r["safe"] and FLOOR[r["method"]] < v < 0.01)
        if any(v < s.get("band", 0.01) for v, _ in low):
            low = [x for x in low if x[0] < s.get("band", 0.01)]
        if low:
            x = low[int(s["graded"] * len(low))][1]
            s["faults"] = [dict(kind="flame", case=0, when={"lacks": [x]}, exc="cantera", at=1)] + s["faults"]
            R.faults = refs.fault_plan(s)
        s["graded"] = None
    what = f"{r['method']} with limit {r['limit']}, targets {r['targets']}, retained {r['safe']}, failures {[(f['kind'], f['case'], f['when']) for f in s['faults']]}"
    try:
        ref = R.ladder(r)
    except Ambiguous as e:
        raise Skip(str(e))
    if ref is None:
        return {"nontrivial": False}
    # several times the work of the reference's ladder: a search beyond that does not follow it
    work = 6 * (ref["its"] + 15) * (1 + len(s["ign"]) + len(s["psr"]) + len(s["flame"])) + 500
    L = ctx.live(c.put_model(ctx, s), [c.reduce_op(s)], dict(refs.life_cfg(s), read_budget=work, op_budget=work), "reduction")
    c.must_finish(L, what)
    tried = len(ref["evaluated"])
    if ref["final"] is None:
        if L.ok():
            raise Violation("should-give-up", f"{what}: no threshold down to the floor is viable, yet {len(L.value()['model']['species'])} species reported")
        if L.results[-1]["exc"] != "SystemExit":
            raise Violation("aborted", f"{what}: {L.describe()} instead of giving up")
        ctx.probe("gave-up")
        return {"key": [r["method"], r["limit"], None, ref["its"]], "nontrivial": True, "signature": sorted(map(len, ref["evaluated"])),
                "sample": {"what": what, "result": "gives up"}}
    if not L.ok():
        raise Violation("aborted", f"{what}: {L.describe()}, expected {len(ref['final'])} species")
    v = L.value()
    if v["model"]["species"] != list(ref["final"]):
        got = v["model"]["species"]
        raise Violation(
            "wrong-model",
            f"{what}: kept {len(got)} species, the ladder stops at threshold {ref['thr']:.3g} with {len(ref['final'])}; "
            f"too many {[x for x in got if x not in ref['final']]}, missing {[x for x in ref['final'] if x not in got]}",
        )
    e = 0.0 if len(ref["final"]) == len(R.names) else R.error(ref["final"])
    if abs(v["error"] - e) > refs.TOL:
        raise Violation("wrong-error", f"{what}: reports {v['error']}, expected {e}")
    import cantera as ct

    want = [x.equation for x in ct.Solution(yaml=R.model(ref["final"])).reactions()] if len(ref["final"]) < len(R.names) else None
    if want is not None and v["model"]["reactions"] != want:
        raise Violation("wrong-reactions", f"{what}: {len(v['model']['reactions'])} reactions, expected {len(want)}")
    if r["method"] == "DRGEP" and r["how"] == "graph":
        try:
            lim = R.limbo(r, ref["final"])
        except Ambiguous as x:
            raise Skip(str(x))
        if v["limbo"] != lim:
            raise Violation("wrong-candidates", f"{what}, upper {r.get('upper')}: candidates {v['limbo']}, expected {lim}")
    if ref.get("exhausted"):
        ctx.probe("exhausted")
    if ref["thr"] < 0.01:
        ctx.probe("finer-ladder")
    return {
        "key": [r["method"], r["limit"], list(ref["final"]), ref["its"]],
        "nontrivial": tried >= 2,
        "signature": [sorted(map(len, ref["evaluated"])), len(L.fired)],
        "sample": {"what": what, "kept": len(ref["final"]), "threshold": ref["thr"], "candidates": tried, "error": e},
    }


shrink = refs.shrink
