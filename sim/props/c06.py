"""C06: the reduced model meets the error limit and its reported error is true.

A run is one or two reductions in one directory (any method, entry point, worker count and schedule)
with sticky failures of chosen candidate models and cases.  When a reduction succeeds, the returned
model - as written by the reduction - is evaluated over all requested cases by an independent driver of
the real integrator, with the same failures in force, and compared with the original model.
"""

from .. import mechs
from ..harness import Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 150}, "thorough": {"runs": 6000, "deadline": 3400}}
RULE = (
    "one run = one or two reductions under a candidate-failure pattern whose result is re-evaluated "
    "independently; non-trivial when at least one species was removed or a candidate failed; distinct by "
    "(entry point, method, limit, species kept, number of cases, earlier reduction)"
)
ASSUMPTIONS = [
    "candidate failures are functions of the case and the candidate's species, so that re-evaluation is meaningful",
    "PSR metrics of both models come from a fault-free process of pyMARS itself (their validity is C15's subject)",
]


def gen(rng, i, tier):
    s = refs.rich(rng, limits=[0.2, 1.0, 2.0, 5.0, 10.0, 20.0, 40.0, 70.0, 95.0])
    if i % 2 == 1:
        # flames alone are cheap: every method and way of starting it, near the flame-speed floor
        from .. import gen as g

        r = s["red"]
        s["ign"], s["psr"], s["flame"] = [], [], g.flame_cases(rng, rng.choice([1, 2, 3]))
        s["mfs"], s["mfs_rel"] = None, rng.choice([None, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.98])
        r.update(how=rng.choice(["main", "main", "cli", "graph"]), method=rng.choice(["DRG", "DRGEP", "PFA"]),
                 limit=rng.choice([5.0, 20.0, 40.0, 60.0, 80.0, 95.0, 99.0]))
        r["sa"] = r["how"] != "graph" and rng.random() < 0.3
        r["algo"] = rng.choice(["initial", "greedy"])
        r["safe"] = [x for x in c.mixture_species(s) if x not in r["targets"]]
        s["faults"] = refs.candidate_faults(rng, s, mechs.names(s["mech"]), c.mixture_species(s), 0.7)
    if s["red"]["how"] == "sa":
        s["red"].setdefault("start_error", 0.0)
    # an earlier reduction in the same directory: other limit or method, same cases
    s["earlier"] = None
    if rng.random() < 0.25:
        s["earlier"] = {"limit": rng.choice([1.0, 10.0, 60.0]), "method": rng.choice(["DRG", "DRGEP", "PFA"])}
    return s


def run(s, ctx):
    r = s["red"]
    what = refs.describe(s)
    R = refs.Reference(s, ctx, refs.fault_plan(s))
    if not R.valid():
        return {"nontrivial": False}
    d = refs.place(ctx, s)
    if s.get("earlier"):
        e = dict(s, red=dict(r, how="graph", sa=False, upper=None, **s["earlier"]))
        ctx.live(d, [c.reduce_op(e)], {}, "earlier reduction")
    before = d.snapshot()
    L = ctx.live(d, [c.reduce_op(s)], refs.life_cfg(s), "reduction")
    c.must_finish(L, what)
    if not L.ok():
        if r.get("sa") and not r.get("method"):
            # nothing can make sensitivity analysis give up: at worst it removes nothing
            st = ctx.live(refs.place(ctx, s), [c.base_op(s, "metrics", threads=1)], {}, "metrics")
            if st.end == "exit" and st.ok() and not any(x == 0.0 for x in st.value()["metrics"]):
                raise Violation("aborted", f"{what}: {L.describe()}")
        elif L.results[-1]["exc"] != "SystemExit":
            st = ctx.live(refs.place(ctx, s), [c.base_op(s, "sample", threads=1)], {}, "sample")
            if st.end == "exit" and st.ok():
                raise Violation("aborted", f"{what}: {L.describe()}")
        return {"key": [r["how"], r.get("method"), r["limit"], "error"], "nontrivial": bool(L.fired)}
    limit = r["limit"]
    phase = s["mech"].get("phase", "")

    def truth(text):
        return R.oracle.error(R.base, R.oracle.metrics(text, R.op, ctx.scratch, R.faults))

    v = refs.result(L)
    if v is None:
        new = refs.new_models(d, before)
        ok = []
        for k, v in sorted(new.items()):
            g = refs.load(v.decode(), phase)
            if g is None:
                raise Violation("unloadable", f"{what}: wrote {k}, which cannot be loaded")
            n = g.n_species
            e = 0.0 if n == len(R.names) else truth(v.decode())
            ok.append((e, n, k))
        # rejected candidates may be left beside the result: the result itself is the smallest within the limit
        if not any(e <= limit + refs.TOL for e, n, k in ok) and not (s.get("earlier") and not new):
            raise Violation("limit-exceeded", f"{what}: succeeded, but every model it wrote exceeds the limit: {[(k, round(e, 3)) for e, n, k in ok]}")
        kept = min([n for e, n, k in ok if e <= limit + refs.TOL] or [0])
    else:
        if not v["error"] <= limit:
            raise Violation("limit-exceeded", f"{what}: reports success with error {v['error']}")
        kept = len(v["model"]["species"])
        if kept < len(R.names):
            e = truth(v["model"]["yaml"])
        else:
            e = r.get("start_error", 0.0) if r["how"] == "sa" else 0.0
        if abs(e - v["error"]) > refs.TOL:
            raise Violation("false-error", f"{what}: reports {v['error']:.4f} percent for {kept} species, re-evaluation gives {e:.4f}")
        f = d.read(v["filename"])
        g = refs.load(f.decode(), phase) if f else None
        if kept < len(R.names) and (g is None or list(g.species_names) != v["model"]["species"]):
            raise Violation("file-differs", f"{what}: the model at {v['filename']} is not the returned one")
    ctx.probe(f"method-{r.get('method')}-{r.get('algo') if r.get('sa') else 'graph'}")
    return {
        "key": [r["how"], r.get("method"), bool(r.get("sa")), limit, kept, len(s["ign"]), len(s["psr"]), len(s["flame"]), s.get("earlier")],
        "nontrivial": kept < len(R.names) or bool(L.fired),
        "signature": [kept, L.choices[:50], len(L.fired)],
        "sample": {"what": what, "kept": kept, "of": len(R.names), "error": v and v["error"]},
    }


def shrink(s):
    if s.get("earlier"):
        yield dict(s, earlier=None)
    if s["red"]["how"] == "cli":
        yield dict(s, red=dict(s["red"], how="main"))
    if s.get("mfs") is not None:
        yield dict(s, mfs=None)
    yield from refs.shrink(s)
