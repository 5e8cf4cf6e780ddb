"""C07: targets, retained species and initial mixtures always survive.

A run is one reduction (any method, entry point, worker count) mostly with limits so permissive that
the search goes on until nothing is left to remove, with sticky failures of candidates.  The final
model, as returned and as read back from the written file, must hold every target, retained and (from
the command line, where they need not be listed) mixture species, and be exactly the original model
restricted to its species.
"""

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 110}, "thorough": {"runs": 6000, "deadline": 3400}}
RULE = (
    "one run = one reduction whose final model is compared with the protected species and with the "
    "original model; non-trivial when species were removed; distinct by (entry point, method, limit, "
    "targets, retained, species kept)"
)
ASSUMPTIONS = ["callers of run_* and main list the mixture species themselves, as documented; only input files get them automatically"]


def gen(rng, i, tier):
    s = refs.rich(rng, p_fault=0.4, sa=0.45, limits=[5.0, 30.0, 60.0, 90.0, 99.9, 100.0, 100.0, 150.0, 1000.0])
    r = s["red"]
    names = mechs.names(s["mech"])
    mix = c.mixture_species(s)
    for x in s["ign"]:
        # nothing ignites near the end of such a search: bound what each candidate costs
        if not x.get("end_time"):
            x["max_steps"] = 1500
    if r["limit"] >= 90 and r.get("method") in ("DRG", "PFA"):
        # these evaluate the same model again at every threshold up to the largest coefficient
        s["psr"] = []
        s["ign"] = s["ign"][:1]
        if not (s["ign"] or s["flame"]):
            s["flame"] = g.flame_cases(rng, 1)
            mix = c.mixture_species(s)
            r["safe"] = list(dict.fromkeys(r["safe"] + [x for x in mix if x not in r["targets"]]))
    z = rng.random()
    if z < 0.3:
        r["targets"] = rng.sample(names, rng.choice([1, 2, 3]))
        r["safe"] = list(dict.fromkeys(r["safe"] + [x for x in mix if x not in r["targets"]]))
    if z > 0.6:
        extra = rng.sample(names, rng.choice([1, 2, 3]))
        r["safe"] = list(dict.fromkeys(r["safe"] + extra))
    if rng.random() < 0.2:
        # listing a target among the retained species, or a species twice, is harmless
        r["safe"] = r["safe"] + [rng.choice(r["targets"] + r["safe"])]
    if i % 3 == 1:
        # mixtures of several kinds of cases, each with a species of its own; every candidate fails early, so
        # the search is cheap and, with so permissive a limit, removes all that is not protected
        r.update(how="cli", limit=rng.choice([100.0, 100.0, 200.0]))
        kinds = rng.choice([["ign", "psr"], ["ign", "flame"], ["psr", "flame"], ["ign", "psr", "flame"], ["ign"], ["psr"], ["flame"]])
        own = rng.sample(["H2O", "H2O2", "AR", "HO2"] if "AR" in names else ["H2O", "H2O2", "HO2"], 3)
        for k, make in (("ign", g.ign_cases), ("psr", g.psr_cases), ("flame", g.flame_cases)):
            s[k] = make(rng, rng.choice([1, 1, 2]) if k != "psr" else 1) if k in kinds else []
            if s[k]:
                x = rng.choice(s[k])
                y = rng.choice([x["fuel"], x["ox"]]) if x.get("phi") else x["reactants"]
                y[own.pop()] = rng.choice([0.01, 0.03])
        s["faults"] = [{"kind": k, "case": j, "when": {"n_below": len(names)}, "exc": "cantera", "at": 1}
                       for k in kinds for j in range(len(s[k]))]
        s["mfs"] = None
        s.pop("mfs_rel", None)
        mix = c.mixture_species(s)
        r["targets"] = rng.choice([["H2", "O2"], ["H2"], ["H2O"], ["OH", "H2"]])
        r["safe"] = [x for x in mix if x not in r["targets"]]
        r["auto"] = [x for x in mix if rng.random() < 0.9]
    elif r["how"] == "cli":
        r["auto"] = [x for x in mix if rng.random() < 0.8]
    return s


def run(s, ctx):
    from .. import oracle

    r = s["red"]
    what = refs.describe(s) + (f", not listed {r['auto']}" if r.get("auto") else "")
    d = refs.place(ctx, s)
    before = d.snapshot()
    L = ctx.live(d, [c.reduce_op(s)], refs.life_cfg(s), "reduction")
    c.must_finish(L, what)
    if not L.ok():
        if L.results[-1]["exc"] not in ("SystemExit",):
            st = ctx.live(refs.place(ctx, s), [c.base_op(s, "sample", threads=1)], {}, "sample")
            if st.end == "exit" and st.ok() and not any(x == 0.0 for x in st.value()["metrics"]):
                raise Violation("aborted", f"{what}: {L.describe()}")
        return {"key": [r["how"], r.get("method"), "error"], "nontrivial": False}
    text = mechs.text(s["mech"])
    phase = s["mech"].get("phase", "")
    names = mechs.names(s["mech"])
    protect = list(dict.fromkeys(r["targets"] + r["safe"] + (c.mixture_species(s) if r["how"] == "cli" else [])))
    v = refs.result(L)
    finals = []
    if v is not None:
        finals.append(("the returned model", v["model"]["yaml"]))
        f = d.read(v["filename"])
        if f is None:
            raise Violation("no-file", f"{what}: no file at the reported name {v['filename']}")
        finals.append((f"the file {v['filename']}", f.decode()))
    else:
        finals += [(k, b.decode()) for k, b in refs.new_models(d, before).items()]
    kept = None
    for where, t in finals:
        g = refs.load(t, phase)
        if g is None:
            raise Violation("unloadable", f"{what}: {where} cannot be loaded")
        kept = list(g.species_names)
        lost = [x for x in protect if x not in kept]
        if lost:
            raise Violation("species-lost", f"{what}: {where} lacks {lost} (kept {len(kept)} of {len(names)})")
        alien = [x for x in kept if x not in names]
        if alien:
            raise Violation("alien-species", f"{what}: {where} has new species {alien}")
        diff = refs.unlike(t, oracle.trimmed(text, phase, [x for x in names if x in kept]), phase)
        if diff:
            raise Violation("not-a-part", f"{what}: {where} is not the original model restricted to its species: {diff}")
    if kept is not None and set(kept) == set(protect):
        ctx.probe("reduced-to-protected-species-only")
    if r.get("auto"):
        ctx.probe("mixture-species-not-listed")
    return {
        "key": [r["how"], r.get("method"), bool(r.get("sa")), r["limit"], sorted(r["targets"]), sorted(r["safe"]), kept],
        "nontrivial": kept is not None and len(kept) < len(names),
        "signature": [kept, len(L.fired)],
        "sample": {"what": what, "kept": kept},
    }


def shrink(s):
    if s["red"]["how"] == "cli" and not s["red"].get("auto"):
        yield dict(s, red=dict(s["red"], how="main"))
    r = s["red"]
    for j in range(len(r["targets"])):
        if len(r["targets"]) > 1 and r["targets"][j] not in c.mixture_species(s):
            yield dict(s, red=dict(r, targets=r["targets"][:j] + r["targets"][j + 1 :]))
    yield from refs.shrink(s)
