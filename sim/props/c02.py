"""C02: a failing case of the starting model stops the run with an error.

A run = (mechanism, cases, operation, worker count) and one reason for the starting model to fail:
a solver fault at a chosen step of one case, a failed allocation, a worker death, or conditions that
cannot ignite / burn.  Life 1 runs the operation under that fault and must end with an error and no
model file.  Lives 2 and 3 run fault-free on copies of the disk life 1 left: sampling must equal
sampling on an empty disk, and metrics reusing saved samples must equal freshly computed ones.
"""

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c

BUDGET = {"quick": {"runs": 240}, "thorough": {"runs": 5000, "deadline": 3400}}
RULE = (
    "one run = one failing starting-model evaluation (fault kind x step x operation x workers) plus "
    "two fault-free reruns on the disk it left; non-trivial when the fault fired or the conditions "
    "really failed; distinct by (operation, fault kind, exception, workers, step band, earlier samples)"
)
ASSUMPTIONS = [
    "worker death is seen as the end of the worker process at a solver step or scheduling point",
    "a failing solver raises CanteraError; other exception kinds stand for bugs and failed allocations",
]


def gen(rng, i, tier):
    s = {"mech": mechs.spec(rng, small=True)}
    s["ign"] = g.ign_cases(rng, rng.choice([0, 1, 2, 3]))
    s["psr"] = g.psr_cases(rng, rng.choice([0, 0, 1, 2]))
    s["flame"] = g.flame_cases(rng, rng.choice([0, 0, 1, 2]))
    if not (s["ign"] or s["psr"] or s["flame"]):
        s["ign"] = g.ign_cases(rng, 2)
    s["threads"] = rng.choice([1, 1, 2, 3])
    s["path"] = rng.choice(["", "", "out"])
    s["sched"] = g.sched(rng)
    s["env"] = g.env(rng)
    s["start_method"] = rng.choice(["fork", "fork", "fork", "spawn"])
    how = rng.choice(["sample", "sample", "graph", "graph", "sa", "main", "cli"])
    s["red"] = c.reduction(rng, s)
    r = s["red"]
    s["what"] = "sample" if how == "sample" else "reduce"
    if how == "sa":
        r.update(method=None, sa=True, how=rng.choice(["sa", "main"]), algo=rng.choice(["initial", "greedy"]))
        r.pop("upper", None)
    elif how in ("graph", "main"):
        r["method"] = r["method"] or rng.choice(["DRG", "DRGEP", "PFA"])
        r["how"] = how if not r.get("sa") else "main"
    elif how == "cli":
        r["how"] = "cli"
    kinds = [k for k in ("ign", "psr", "flame") if s[k]]
    kind = rng.choice(kinds)
    case = rng.randrange(len(s[kind]))
    f = {"kind": kind, "case": case}
    z = rng.random()
    if z < 0.62:
        f["how"] = "solver"
        f["exc"] = rng.choice(["cantera"] * 5 + ["memory", "runtime"])
        f["at"] = {
            "ign": rng.choice([1, 2, 5, rng.randint(3, 60), rng.randint(60, 330), rng.randint(330, 800), rng.randint(500, 900), rng.randint(700, 1400)]),
            "psr": rng.choice([1, 2, rng.randint(3, 50), rng.randint(50, 900)]),
            "flame": rng.randint(1, 5),
        }[kind]
        if s["threads"] > 1 and rng.random() < 0.25:
            f["exc"] = "kill"
        elif kind == "flame" and rng.random() < 0.4:
            f["exc"] = "speed" + rng.choice(["-0.3", "-2.5", "-0.01", "0.0", "0.01", "0.049"])
    elif z < 0.75 and s["threads"] > 1:
        f["how"] = "schedkill"
        f["at"] = rng.randint(1, 60)
        s["sched"]["quantum"] = rng.choice([7, 20, 40])
    else:
        f["how"] = "conditions"
        if kind == "ign":
            f["mod"] = rng.choice(["short-end", "few-steps", "late-steps", "late-steps", "cold", "cold-end"])
            f["steps"] = rng.choice([rng.randint(300, 740), rng.randint(500, 740)])
        elif kind == "psr":
            f["mod"] = "inert"
        else:
            f["mod"] = "floor"
    s["fault"] = f
    # samples of an earlier, different request may lie around
    s["before"] = rng.choice([None, None, None, "more-cases"])
    return s


def struck(s):
    """The scenario with the failing conditions in place, and the life configuration."""
    f = s["fault"]
    s2 = dict(s)
    cfg = dict(s["env"], sched=s["sched"], start_method=s["start_method"])
    if f["case"] >= len(s.get(f["kind"], [])):
        f = dict(f, case=0)
    if not s.get(f["kind"]):
        return s2, cfg, None
    cs = [dict(x) for x in s[f["kind"]]]
    x = cs[f["case"]]
    if f["how"] == "solver":
        # strikes the starting model, never a candidate
        cfg["engine"] = [{"kind": f["kind"], "t0": x["T"], "at": f["at"], "exc": f["exc"],
                          "when": {"n_equal": len(mechs.names(s["mech"]))}}]
    elif f["how"] == "schedkill":
        cfg["sched"] = dict(s["sched"], kill_at=f["at"])
    else:
        if f["mod"] == "short-end":
            x["end_time"] = 1e-7
        elif f["mod"] == "few-steps":
            x.pop("end_time", None)
            x["max_steps"] = 20
        elif f["mod"] == "late-steps":
            # ignites, but is stopped before steady state
            x.pop("end_time", None)
            x["max_steps"] = f["steps"]
        elif f["mod"] == "cold":
            x.pop("end_time", None)
            x["T"] = 310.0
        elif f["mod"] == "cold-end":
            x["T"], x["end_time"] = 400.0, 0.01
        elif f["mod"] == "inert":
            for k in ("phi", "fuel", "ox"):
                x.pop(k, None)
            x["reactants"], x["ctype"] = {"N2": 1.0}, "mole"
        elif f["mod"] == "floor":
            s2["mfs"] = 500.0
        s2[f["kind"]] = cs
    return s2, cfg, x


def op_of(s):
    if s["what"] == "sample":
        return c.base_op(s, "sample")
    return c.reduce_op(s)


def run(s, ctx):
    import numpy as np

    s2, cfg, x = struck(s)
    if x is None:
        return {"nontrivial": False}
    f = s["fault"]
    if f.get("mod") == "late-steps":
        # the conditions must really end before steady state, by a margin no integrator noise spans
        from .. import oracle

        if s["what"] == "reduce" and not s["red"].get("method"):
            return {"nontrivial": False}        # nothing is sampled: only the ignition delay is needed
        whole = oracle.ignition_profile(mechs.text(s["mech"]), s["mech"].get("phase", ""), dict(x, max_steps=10000))
        if whole is None or len(whole) < f["steps"] + 40:
            return {"nontrivial": False}
    d = c.put_model(ctx, s)
    if s.get("before") and s["fault"]["how"] != "conditions":
        more = dict(s, ign=s["ign"] + g_more(s["ign"]), psr=s["psr"] + g_more(s["psr"]), flame=s["flame"] + g_more(s["flame"]))
        b = ctx.live(d, [c.base_op(more, "sample", threads=1)], {}, "earlier samples")
        if not (b.end == "exit" and b.ok()):
            return {"nontrivial": False}
    if s["red"].get("how") == "cli":
        d.put("input.yaml", c.cli_input(s2))
    L = ctx.live(d, [op_of(s2)], cfg, "failing")
    fired = sum(L.fired.values()) + L.counters.get("kills", 0)
    what = f"{op_of(s2)['op']} with {f['kind']} case {f['case']} failing ({f['how']} {f.get('exc') or f.get('mod') or ''} at {f.get('at')}), threads={s['threads']}"
    if L.end == "hang":
        raise Violation("hang", f"{what}: never ends ({(L.events or ['?'])[-1]})")
    if L.end != "exit":
        raise Violation("abnormal-end", f"{what}: process ended with {L.end}")
    if f["how"] != "conditions" and not fired:
        if not L.ok() and s["what"] == "sample":
            raise Violation("spurious-error", f"{what}: fault never reached, yet {L.describe()}")
        return {"nontrivial": False}
    if f["how"] == "schedkill" and L.ok():
        # the worker may have died between tasks: then nothing failed and the result must be right
        return {"nontrivial": False}
    if L.ok():
        raise Violation("no-error", f"{what}: reported success")
    if not c.is_error(L):
        raise Violation("no-error", f"{what}: ended without an error ({L.describe()})")
    # a worker of a reduction may also die later, while a candidate is evaluated
    base = not (f["how"] == "schedkill" and s["what"] == "reduce")
    if base and L.results[-1]["exc"] == "SystemExit":
        raise Violation("wrong-error", f"{what}: went on to search for candidates ({L.describe()})")
    left = [n for n in d.files() if "reduced_" in n]
    if base and left:
        raise Violation("model-written", f"{what}: failed, but left model files {left}")
    # what it left behind must not be taken for samples
    sc = dict(s2 if f["how"] == "conditions" else s, threads=1)
    d2 = ctx.clone(d)
    a = ctx.live(d2, [c.base_op(sc, "sample")], {}, "rerun")
    ref = c.put_model(ctx, s)
    b = ctx.live(ref, [c.base_op(sc, "sample")], {}, "fresh")
    if f["how"] == "conditions":
        if a.end == "exit" and a.ok():
            raise Violation("no-error-again", f"{what}: a second sampling reported success")
        c.must_finish(a, "second sampling after " + what)
    else:
        if not (b.end == "exit" and b.ok()):
            return {"nontrivial": False}
        c.must_finish(a, "rerun after " + what)
        if not a.ok():
            raise Violation("rerun-fails", f"fault-free rerun after {what}: {a.describe()}")
        diff = c.same_result(b.value(), a.value())
        if diff:
            raise Violation("rerun-differs", f"fault-free sampling after {what} differs from a fresh one in {diff}")
        m1 = ctx.live(d, [c.base_op(sc, "metrics", reuse=True)], {}, "metrics reusing")
        want = b.value()["metrics"]
        if not (m1.end == "exit" and m1.ok()):
            raise Violation("rerun-fails", f"metrics with reuse after {what}: {m1.describe()}")
        if len(m1.value()["metrics"]) != len(want) or not np.allclose(m1.value()["metrics"], want, rtol=1e-4, atol=0):
            raise Violation("rerun-differs", f"metrics reusing what {what} left: {m1.value()['metrics'][:6]} instead of {want[:6]}")
    ctx.probe("op-" + op_of(s)["op"])
    ctx.probe("fault-" + f["how"])
    return {
        "key": [op_of(s)["op"], s["red"].get("method") if s["what"] != "sample" else None, f["kind"], f["how"],
                f.get("exc") or f.get("mod"), s["threads"], min(f.get("at", 0) // 25, 12), s.get("before")],
        "signature": [L.choices[:80], L.results[-1]["exc"]],
        "sample": {"what": what, "outcome": L.describe()},
        "resolved": s,
    }


def g_more(cs):
    return [dict(cs[-1], T=cs[-1]["T"] + 777.0 if cs[-1]["T"] < 900 else cs[-1]["T"] + 123.0)] if cs else []


def shrink(s):
    f = s["fault"]
    for k in ("ign", "psr", "flame"):
        for j in range(len(s[k])):
            if k == f["kind"] and j == f["case"]:
                continue
            f2 = dict(f, case=f["case"] - 1) if k == f["kind"] and j < f["case"] else f
            yield dict(s, **{k: s[k][:j] + s[k][j + 1 :]}, fault=f2)
    if s.get("before"):
        yield dict(s, before=None)
    if f.get("at", 1) > 1:
        yield dict(s, fault=dict(f, at=1))
        yield dict(s, fault=dict(f, at=f["at"] // 2))
    yield from (x for x in c.shrink_common(s) if all(len(x.get(k, [])) == len(s.get(k, [])) for k in ("ign", "psr", "flame")))
