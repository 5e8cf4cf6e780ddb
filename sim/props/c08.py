"""C08: every run ends.

A run is one sampling, metric evaluation, PSR trace or reduction under trouble: permissive limits, inert or
degenerate models, solver failures in any pattern (not only sticky ones), workers dying, solver corrections
failing, disks failing for good, failed allocations.  It must end - with a result or an error - within
budgets on integrator steps, file opens, disk operations and loop iterations derived from the request.
"""

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 170}, "thorough": {"runs": 6000, "deadline": 3400}}
RULE = (
    "one run = one operation under one kind of trouble with work budgets derived from its request; non-trivial "
    "when the trouble took effect; distinct by (operation, method, trouble, how it ended, work band)"
)
ASSUMPTIONS = [
    "work is counted in integrator steps, rate evaluations, file opens, durable disk operations and backward jumps in pyMARS code",
]


def gen(rng, i, tier):
    t = rng.choice(["permissive", "permissive", "inert", "faults", "faults", "worker", "worker", "psr", "psr", "disk", "disk", "line"])
    if t == "permissive":
        s = refs.rich(rng, p_fault=0.3, sa=0.3, limits=[99.0, 100.0, 100.0, 120.0, 1e4])
        if s["red"].get("method") in ("DRG", "PFA"):
            s["psr"], s["ign"] = [], s["ign"][:1]
        if not (s["ign"] or s["flame"] or s["psr"]):
            s["flame"] = g.flame_cases(rng, 1)
            s["red"]["safe"] = list(dict.fromkeys(s["red"]["safe"] + [x for x in c.mixture_species(s) if x not in s["red"]["targets"]]))
        for x in s["ign"]:
            if not x.get("end_time"):
                x["max_steps"] = rng.choice([1000, 1500])
                if rng.random() < 0.15:
                    x.pop("max_steps")
    else:
        s = refs.rich(rng, p_fault=0.3)
    s["t"] = t
    s["what"] = "reduce" if t in ("permissive",) else rng.choice(["reduce", "reduce", "sample", "metrics"])
    if t == "inert":
        s["inert"] = rng.choice(["mixture", "mixture", "cold", "no-fuel"])
        s["what"] = rng.choice(["reduce", "sample", "metrics"])
        s["faults"] = []
    elif t == "faults":
        s["cuts"] = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice([k for k in ("ign", "psr", "flame") if s[k]])
            f = {"kind": k, "case": rng.randrange(len(s[k])), "exc": rng.choice(["cantera", "cantera", "runtime", "memory"])}
            f["at"] = {"ign": rng.choice([1, rng.randint(2, 400)]), "psr": rng.randint(1, 900), "flame": rng.randint(1, 5)}[k]
            f["when"] = rng.choice([None, {"n_below": len(mechs.names(s["mech"])) - rng.randint(0, 4)}])
            s["cuts"].append(f)
    elif t == "worker":
        s["threads"] = rng.choice([2, 2, 3, 4])
        s["sched"]["quantum"] = rng.choice([7, 20, 40])
        s["kill_at"] = rng.choice([rng.randint(1, 40), rng.randint(1, 400)])
        s["die"] = rng.choice(["sched", "sched", "step", "disk"])
        s["cuts"] = [c.interruption(rng, s, ["step"])]
        s["cuts"][0]["exc"] = "kill"
    elif t == "psr":
        s["psr"] = s["psr"] or g.psr_cases(rng, 1)
        s["red"]["safe"] = list(dict.fromkeys(s["red"]["safe"] + [x for x in c.mixture_species(s) if x not in s["red"]["targets"]]))
        s["what"] = rng.choice(["trace", "trace", "trace", "sample", "metrics", "reduce"])
        a = rng.choice([1, 2, 3, rng.randint(1, 60), rng.randint(1, 300)])
        s["root"] = [a, rng.choice([a + 1, a + 5, a + 40, 10**9])]
        s["nan"] = rng.random() < 0.25
        s["hard"] = rng.random() < 0.6
        s["stop"] = rng.random() < 0.6
        s["steps"] = rng.choice([None, None, 5, 60])
    elif t == "disk":
        s["cuts"] = [c.interruption(rng, s, ["disk"]) for _ in range(rng.choice([1, 1, 2]))]
        for f in s["cuts"]:
            f["action"] = rng.choice(["err", "err", "err", "short", "sigint", "torn"])
            f.setdefault("errno", None)
            if f["action"] == "err":
                f["errno"] = rng.choice(["ENOSPC", "EIO", "EDQUOT", "EROFS", "EMFILE"])
                f["count"] = rng.choice([1, 2, 10, -1, -1])
                f["mask"] = 0 if f["errno"] in ("EIO", "EROFS") else c.M_SPACE
    elif t == "line":
        s["cuts"] = [c.interruption(rng, s, ["line"])]
    return s


def troubled(s, ctx):
    """The scenario as run, its operation and its life configuration."""
    s2 = dict(s)
    cfg = dict(s["env"], sched=s["sched"], start_method=s.get("start_method", "fork"), engine=refs.fault_plan(s))
    t = s["t"]
    if t == "inert":
        for k in ("ign", "psr", "flame"):
            out = []
            for x in s[k]:
                x = dict(x)
                if s["inert"] == "cold" and k == "ign":
                    x["T"] = 300.0
                elif s["inert"] != "cold":
                    for y in ("phi", "fuel", "ox"):
                        x.pop(y, None)
                    x["reactants"], x["ctype"] = ({"N2": 1.0} if s["inert"] == "mixture" else {"O2": 1.0, "N2": 3.0}), "mole"
                out.append(x)
            s2[k] = out
    if t == "faults":
        cfg["engine"] += [
            {"kind": f["kind"], "t0": s[f["kind"]][f["case"]]["T"], "at": f["at"], "exc": f["exc"], "when": f["when"]}
            for f in s["cuts"] if f["case"] < len(s[f["kind"]])
        ]
    if t == "psr":
        cfg["engine"].append({"kind": "root", "at": s["root"][0], "until": s["root"][1], "nan": s["nan"], "hard": s.get("hard", False)})
    if t == "worker" and s["die"] == "sched":
        cfg["sched"] = dict(s["sched"], kill_at=s["kill_at"])
    if s["what"] == "trace":
        op = {"op": "psr", "model": s["mech"].get("file", "mech.yaml"), "phase": s["mech"].get("phase", ""), "psr": s["psr"][:1], "stop": s["stop"]}
        if s.get("steps"):
            op["kw"] = {"max_steps": s["steps"]}
    elif s["what"] == "reduce":
        op = c.reduce_op(s2)
    else:
        op = c.base_op(s2, s["what"])
    if t in ("disk", "line") or (t == "worker" and s["die"] != "sched"):
        R = ctx.live(refs.place(ctx, s2), [op], dict(c.COUNT_LINES if t == "line" else {}, sched=s["sched"], engine=refs.fault_plan(s), **s["env"]), "undisturbed")
        c.must_finish(R, "undisturbed " + s["what"])
        ref = c.lengths(R)
        cfg2 = dict(cfg)
        for f in s["cuts"]:
            if t == "worker" and s["die"] == "disk":
                f = {"how": "disk", "action": "crash", "at": s["kill_at"] * 10 % 1000, "proc": "workers"}
            x = c.interrupted_cfg(s2, f, ref)
            for k in ("disk", "engine"):
                cfg2[k] = cfg2.get(k, []) + x.get(k, [])
            if "line_fault" in x:
                cfg2["line_fault"] = x["line_fault"]
        cfg = cfg2
    return s2, op, cfg


def budgets(s, op, n):
    """Work every correct execution of the request stays far below."""
    steps = sum((x.get("max_steps") or 10000) if not x.get("end_time") else 20000 for x in s["ign"])
    steps += 12000 * len(s["psr"]) + 10 * len(s["flame"]) + 1000
    loops = 400 * steps // 100 + 400_000 + 400_000 * len(s["psr"])
    if op["op"] in ("sample", "metrics", "psr"):
        return {"step_budget": steps, "read_budget": 2000 + 200 * len(s["ign"] + s["psr"] + s["flame"]), "jump_budget": loops, "op_budget": 20000}
    nc = len(s["ign"]) + len(s["psr"]) + len(s["flame"])
    b = {"step_budget": 2_000_000, "op_budget": 300_000, "read_budget": 120_000, "jump_budget": 20_000_000}
    if s["red"]["limit"] >= 100.0:
        # the first threshold is accepted, so the ladder has at most some 405 rungs
        b["read_budget"] = (410 + n * n) * (6 + 2 * nc) + 2000
    return b


def run(s, ctx):
    s2, op, cfg = troubled(s, ctx)
    n = len(mechs.names(s["mech"]))
    cfg.update(budgets(s2, op, n))
    what = f"{s['t']} trouble ({s.get('root') or s.get('die') or s.get('inert') or [c.describe_interruption(f) if 'how' in f else f for f in s.get('cuts', [])] or ''}): "
    what += refs.describe(s) if s["what"] == "reduce" else f"{s['what']} of {len(s['ign'])}/{len(s['psr'])}/{len(s['flame'])} cases, threads {s['threads']}"
    L = ctx.live(refs.place(ctx, s2), [op], cfg, s["t"])
    c.must_finish(L, what)
    fired = sum(L.fired.values()) + L.counters.get("kills", 0) + sum(L.counters.get("engine_fired", {}).values())
    ctx.probe("trouble-" + s["t"])
    end = "killed" if L.end == "killed" else "result" if L.ok() else L.results[-1]["exc"] if L.results else "none"
    ctx.probe("ended-" + end)
    if s["t"] == "permissive" and not L.ok() and end not in ("SystemExit",):
        st = ctx.live(refs.place(ctx, s), [c.base_op(s, "sample", threads=1)], {}, "sample")
        if st.end == "exit" and st.ok() and not any(x == 0.0 for x in st.value()["metrics"]):
            raise Violation("aborted", f"{what}: {L.describe()}")
    work = L.counters.get("nsteps", 0)
    return {
        "key": [op["op"], s["red"].get("method") if s["what"] == "reduce" else None, s["t"], s.get("die") or s.get("inert"), end, len(str(work)), L.counters.get("nreads", 0) // 50],
        "nontrivial": fired > 0 or s["t"] in ("permissive", "inert"),
        "signature": [end, work, L.counters.get("nops", 0)],
        "sample": {"what": what, "end": end, "steps": work, "opens": L.counters.get("nreads", 0), "loops": L.counters.get("jumps", 0)},
    }


def shrink(s):
    if s["t"] in ("faults", "disk") and len(s.get("cuts", [])) > 1:
        for x in g.drop_each(s["cuts"]):
            if x:
                yield dict(s, cuts=x)
    if s["red"]["how"] == "cli":
        yield dict(s, red=dict(s["red"], how="main"))
    if s.get("mfs") is not None:
        yield dict(s, mfs=None)
    if s["t"] in ("permissive", "inert"):
        yield from refs.shrink(s)
    elif s.get("faults"):
        yield dict(s, faults=[])
