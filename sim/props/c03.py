"""C03: a failing case of a candidate model is a zero metric / a 100% error, and nothing more.

A run evaluates the metrics of a candidate: the workload mechanism with a random set of species cut
out (by the oracle's own trimmer), from one species short down to "only the mixture left", over a case
mix in which a random subset is struck by a solver fault at a random step, cannot ignite in time, or is
below the flame-speed floor, with any worker count and schedule.  Every struck case must be exactly
zero; every other metric must be what an independent evaluation gives.  Part of the runs are whole
reductions under sticky candidate failures, which must end normally.
"""

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c

BUDGET = {"quick": {"runs": 320}, "thorough": {"runs": 7000, "deadline": 3400}}
RULE = (
    "one run = one candidate model x case mix x set of struck cases x workers; non-trivial when a fault "
    "fired or the candidate really fails a case; distinct by (numbers of cases, struck kinds, species cut, workers)"
)
ASSUMPTIONS = [
    "solver failures appear as CanteraError (any solver) or RuntimeError (stirred reactor), the library's documented failure types",
]


def gen(rng, i, tier):
    s = {"mech": mechs.spec(rng, small=True)}
    s["ign"] = g.ign_cases(rng, rng.choice([0, 1, 2, 3, 4]))
    s["psr"] = g.psr_cases(rng, rng.choice([0, 0, 1, 2]))
    s["flame"] = g.flame_cases(rng, rng.choice([0, 0, 1, 3]))
    if not (s["ign"] or s["psr"] or s["flame"]):
        s["ign"] = g.ign_cases(rng, 2)
    s["threads"] = rng.choice([1, 1, 1, 2, 3])
    s["path"] = ""
    s["mfs"] = rng.choice([None, None, None, 0.5, 1.5])
    s["sched"] = g.sched(rng)
    s["env"] = g.env(rng)
    s["start_method"] = rng.choice(["fork", "fork", "fork", "spawn"])
    for x in s["ign"]:
        z = rng.random()
        if z < 0.12:
            x["end_time"] = rng.choice([1e-6, 1e-5, 1e-4])
        elif z < 0.2:
            x.pop("end_time", None)
            x["max_steps"] = rng.choice([1, 10, 60])
        elif z < 0.28:
            x.pop("end_time", None)
            x["T"] = round(rng.uniform(300, 600), 1)
    s["faults"] = []
    # what the starting model gave, relative to the candidate
    s["base"] = [rng.choice([1.0, 0.9, 0.5, 0.2, 2.0, 30.0]) for _ in range(8)]
    for k in ("ign", "psr", "flame"):
        for j in range(len(s[k])):
            if rng.random() < 0.35:
                at = {
                    "ign": rng.choice([1, 1, 2, rng.randint(3, 60), rng.randint(30, 320), rng.randint(300, 700)]),
                    "psr": rng.choice([1, 2, rng.randint(3, 60), rng.randint(60, 1500)]),
                    "flame": rng.randint(1, 5),
                }[k]
                exc = "runtime" if k == "psr" and rng.random() < 0.3 else "cantera"
                if k == "flame" and rng.random() < 0.4:
                    exc = "speed" + rng.choice(["-0.3", "-2.5", "-0.01", "0.0", "0.01", "0.049"])
                s["faults"].append({"kind": k, "case": j, "at": at, "exc": exc})
    names = mechs.names(s["mech"])
    mix = c.mixture_species(s)
    rest = [n for n in names if n not in mix]
    z = rng.random()
    if z < 0.15:
        s["cut"] = []
    elif z < 0.55:
        s["cut"] = rng.sample(rest, rng.randint(1, max(1, len(rest) // 3)))
    elif z < 0.8:
        s["cut"] = rng.sample(rest, rng.randint(1, len(rest)))
    else:
        s["cut"] = list(rest)
    if rng.random() < 0.12:
        # a whole reduction whose candidates keep failing
        s["reduce"] = True
        s["ign"], s["psr"], s["flame"] = s["ign"][:1], s["psr"][:1], s["flame"][:1]
        for x in s["ign"]:
            x.pop("max_steps", None)
            x.pop("end_time", None)
            x["T"] = max(x["T"], 1000.0)
        s["mfs"] = None
        s["red"] = c.reduction(rng, s, methods=("DRG", "DRGEP", "DRGEP"))
        s["faults"] = [
            {"kind": k, "case": 0, "at": rng.choice([1, 5, 20]) if k != "flame" else 2, "exc": "cantera",
             "when": rng.choice([{"lacks": names}, {"lacks": [rng.choice(rest)]}, {"n_below": len(names) - rng.randint(0, 3)},
                                 {"n_equal": len(names) - rng.randint(1, 4)}])}
            for k in ("ign", "psr", "flame") if s[k]
        ]
    return s


def faults_of(s):
    out = []
    for f in s["faults"]:
        if f["case"] < len(s[f["kind"]]):
            e = {"kind": f["kind"], "t0": s[f["kind"]][f["case"]]["T"], "at": f["at"], "exc": f["exc"]}
            if f.get("when"):
                e["when"] = f["when"]
            out.append((f, e))
    return out


def run(s, ctx):
    import numpy as np

    from .. import oracle

    fl = faults_of(s)
    cfg = dict(s["env"], sched=s["sched"], start_method=s["start_method"], engine=[e for _, e in fl])
    if s.get("reduce"):
        d = c.put_model(ctx, s)
        L = ctx.live(d, [c.reduce_op(s)], cfg, "reduction")
        what = f"{s['red'].get('method') or 'SA'} reduction with failing candidates"
        c.must_finish(L, what)
        if not L.ok():
            r = L.results[-1]
            B = ctx.live(c.put_model(ctx, s), [c.base_op(s, "sample", threads=1)], {}, "starting model alone")
            if not B.ok():
                return {"nontrivial": False}
            if not (r["exc"] == "SystemExit" and "viable" in r["msg"]):
                raise Violation("aborted", f"{what}: {L.describe()}")
        ctx.probe("reductions")
        return {"key": ["reduce", s["red"].get("method"), s["red"].get("sa"), len(L.fired)], "nontrivial": bool(L.fired),
                "sample": {"what": what, "end": L.describe()}}
    text = mechs.text(s["mech"])
    phase = s["mech"].get("phase", "")
    names = mechs.names(s["mech"])
    keep = [n for n in names if n not in s["cut"]]
    cand = oracle.trimmed(text, phase, keep) if s["cut"] else text
    d = ctx.disk()
    d.put(s["mech"].get("file", "mech.yaml"), cand)
    L = ctx.live(d, [c.base_op(s, "metrics")], cfg, "candidate")
    what = f"metrics of a candidate without {s['cut']}, threads={s['threads']}"
    c.must_finish(L, what)
    if not L.ok():
        raise Violation("aborted", f"{what}, struck {[(f['kind'], f['case'], f['at']) for f, _ in fl]}: {L.describe()}")
    got = L.value()["metrics"]
    struck = {(f["kind"], f["case"]) for k, (f, _) in enumerate(fl) if L.fired.get(str(k), L.fired.get(k, 0))}
    want, label = [], []
    for k in ("ign", "psr", "flame"):
        for j, x in enumerate(s[k]):
            n = 3 if k == "psr" else 1
            if (k, j) in struck:
                v = [0.0] * n
            elif k == "ign":
                v = [oracle.ignition_delay(cand, phase, x)]
            elif k == "psr":
                v = oracle.psr_metrics(cand, phase, x, ctx.scratch)
            else:
                v = [oracle.flame_speed(cand, phase, x, s.get("mfs"))]
            want += v
            label += [f"{k}[{j}]" + ("(struck)" if (k, j) in struck else "")] * n
    if len(got) != len(want):
        raise Violation("wrong-length", f"{what}: {len(got)} metrics for {len(want)} expected")
    for a, b, l in zip(got, want, label):
        if (b == 0.0) != (a == 0.0) or not np.isclose(a, b, rtol=1e-4, atol=0):
            raise Violation("wrong-metric", f"{what}: metric of {l} is {a!r}, expected {b!r}")
    if any(v == 0.0 for v in want):
        base = [v * s["base"][n % 8] if v else 1.0 for n, v in enumerate(want)]
        E = ctx.live(d, [{"op": "error", "base": base, "test": got}], {}, "error")
        if not E.ok() or E.value() != 100.0:
            raise Violation("wrong-error", f"error of metrics {got} with a failed case is {E.describe() if not E.ok() else E.value()}, not 100")
    zeros = sum(1 for v in want if v == 0.0)
    ctx.probe("degenerate-candidates", 1 if len(s["cut"]) >= len(names) - 5 else 0)
    return {
        "key": [len(s["ign"]), len(s["psr"]), len(s["flame"]), sorted(struck), len(s["cut"]), s["threads"]],
        "nontrivial": bool(struck) or zeros > 0,
        "signature": [sorted(struck), s["cut"], L.choices[:60]],
        "sample": {"what": what, "struck": sorted(struck), "metrics": got[:6]},
    }


def shrink(s):
    for j in range(len(s["faults"])):
        yield dict(s, faults=s["faults"][:j] + s["faults"][j + 1 :])
    for k in ("ign", "psr", "flame"):
        for j in range(len(s[k])):
            if len(s["ign"]) + len(s["psr"]) + len(s["flame"]) == 1:
                break
            f2 = [
                dict(f, case=f["case"] - (1 if f["kind"] == k and f["case"] > j else 0))
                for f in s["faults"] if not (f["kind"] == k and f["case"] == j)
            ]
            yield dict(s, **{k: s[k][:j] + s[k][j + 1 :]}, faults=f2)
    for x in g.drop_each(s["cut"]):
        yield dict(s, cut=x)
    for j, f in enumerate(s["faults"]):
        if f["at"] > 1:
            yield dict(s, faults=s["faults"][:j] + [dict(f, at=1)] + s["faults"][j + 1 :])
    yield from (x for x in c.shrink_common(s) if all(len(x.get(k, [])) == len(s.get(k, [])) for k in ("ign", "psr", "flame"))
                and (x.get("mech") == s["mech"] or not s["cut"]))
