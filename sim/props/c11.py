"""C11: a run is a function of its inputs.

The same request is executed several times in fresh processes and directories that differ in everything that
is not an input: hash seed (a second interpreter), wall clock and clock jumps, entropy, CPU count, number of worker
processes, start method, worker schedule, and the name of the directory.  All must end alike, with the same species,
reactions, error, candidate list, metrics, sampled states, model file and saved samples.
"""

import atexit
import os

from .. import gen as g, mechs
from ..harness import Skip, Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 110}, "thorough": {"runs": 5000, "deadline": 3400}}
RULE = (
    "one run = one request executed in three to five different environments; non-trivial when they differed in hash seed and in at "
    "least one more respect; distinct by (entry point, method, phenomena, outcome, what differed)"
)
ASSUMPTIONS = ["files carry the date of writing, which is not compared"]


def variant(rng, s, k):
    v = {"env": g.env(rng), "sched": g.sched(rng), "threads": rng.choice([1, 1, 2, 3, 5, None]),
         "start_method": rng.choice(["fork", "fork", "fork", "spawn"]), "other": k % 2 == 1}
    if s["what"] == "reduce" and v["sched"]["quantum"] < 40:
        v["sched"]["quantum"] = rng.choice([40, 60, 100])
    if rng.random() < 0.3:
        v["env"]["clock_jump"] = [rng.randrange(1, 40), rng.choice([-86400.0, -1.0, 3600.0, 1e8])]
    return v


def gen(rng, i, tier):
    z = rng.random()
    s = refs.rich(rng, p_fault=0.3, sa=0.45, how=("main", "graph", "cli"), limits=[1.0, 5.0, 10.0, 20.0, 40.0])
    s["psr"] = s["psr"][:1] if rng.random() < 0.4 and not s["red"].get("sa") else []
    if not (s["ign"] or s["psr"] or s["flame"]):
        s["flame"] = g.flame_cases(rng, 1)
        s["red"]["safe"] = list(dict.fromkeys(s["red"]["safe"] + [x for x in c.mixture_species(s) if x not in s["red"]["targets"]]))
        s["faults"] = []
    s["faults"] = [f for f in s["faults"] if f["case"] < len(s[f["kind"]])]
    for x in s["ign"]:
        x["max_steps"] = rng.choice([800, 1000])
    if z < 0.2:
        s["what"] = rng.choice(["sample", "metrics", "sample"])
    elif z < 0.25:
        s["what"] = "write"
    else:
        s["what"] = "reduce"
    s["variants"] = [variant(rng, s, k) for k in range(rng.choice([2, 3, 3] if s["what"] == "reduce" else [3, 4, 5]))]
    return s


HELPER = {}


def helper(ctx, hs):
    """A second interpreter, with another hash seed, kept for all runs of this one."""
    from ..driver import Interp

    it = HELPER.get(hs)
    if it is None or it.p.poll() is not None:
        home = os.path.join(os.path.dirname(ctx.base), f"helper{hs}")
        it = HELPER[hs] = Interp(home, hs, session=False)
        atexit.register(it.p.kill)
    return it


def request(s, v):
    t = dict(s, threads=v["threads"])
    if s["what"] == "reduce":
        op = c.reduce_op(t)
    elif s["what"] == "write":
        op = c.base_op(t, "write", out="")
    else:
        op = c.base_op(t, s["what"])
    files = {s["mech"].get("file", "mech.yaml"): mechs.text(s["mech"])}
    if s["what"] == "reduce" and s["red"]["how"] == "cli":
        files["input.yaml"] = c.cli_input(s)
    cfg = dict(v["env"], sched=v["sched"], start_method=v["start_method"], engine=refs.fault_plan(s))
    return {"files": files, "dirs": [s["path"]] if s.get("path") else [], "ops": [op], "cfg": cfg}


def perform(s, ctx, v):
    from . import execute

    r = request(s, v)
    if not v["other"]:
        return execute.perform(r, ctx)
    hs = s.get("hashseed", 0) + 4
    rec = helper(ctx, hs).run("execute", 0, dict(r, hashseed=hs))
    if rec["skip"]:
        raise Skip(rec["skip"])
    if rec["harness"]:
        raise RuntimeError(rec["harness"])
    for k, x in rec["stats"].items():
        if isinstance(x, dict):
            for a, b in x.items():
                ctx.stats[k][a] = ctx.stats[k].get(a, 0) + b
        else:
            ctx.stats[k] += x
    ctx.digest.update(rec["digest"].encode())
    return rec["sample"]


def brief(x):
    r = x["results"][-1] if x["results"] else {}
    return x["end"] if not r else "success" if "ok" in r else f"{r['exc']}: {r['msg'][:100]}"


def describe(v):
    return (f"threads {v['threads']} ({v['start_method']}), {v['env']['cpu_count']} CPUs, " + ("second hash seed" if v["other"] else "first hash seed"))


def run(s, ctx):
    refs.resolve(s)
    what = {"sample": "sample()", "metrics": "sample_metrics()", "write": "soln2yaml.write()"}.get(s["what"]) or refs.describe(s)
    first = None
    for v in s["variants"]:
        x = perform(s, ctx, v)
        if x["end"] == "hang":
            raise Violation("hang", f"{what}: does not end ({x['event']})")
        if x["end"] != "exit":
            raise Violation("abnormal-end", f"{what}: ended with {x['end']}")
        if first is None:
            first, v0 = x, v
            continue
        where = f"{what}: with {describe(v)} instead of {describe(v0)}"
        a, b = x["results"][-1], first["results"][-1]
        if ("ok" in a) != ("ok" in b):
            raise Violation("other-outcome", f"{where}: {brief(x)} instead of {brief(first)}")
        if "ok" in a:
            diff = c.same_result(a["ok"].get("result", a["ok"]) or {}, b["ok"].get("result", b["ok"]) or {})
            if diff:
                raise Violation("other-result", f"{where}: {diff}")
            fa, fb = x["files"], first["files"]
            bad = sorted(n for n in set(fa) | set(fb) if fa.get(n) != fb.get(n))
            if bad:
                raise Violation("other-files", f"{where}: files differ: {bad[:4]}")
    r = first["results"][-1]
    end = "ok" if "ok" in r else r["exc"]
    diff = sorted({str(v["threads"]) for v in s["variants"]})
    return {
        "key": [s["what"], s["red"]["how"], s["red"].get("method"), s["red"].get("algo") if s["red"].get("sa") else None,
                [len(s[k]) for k in ("ign", "psr", "flame")], end, len(diff)],
        "nontrivial": any(v["other"] for v in s["variants"]) and len(s["variants"]) > 1,
        "signature": [what, end, sorted(first["files"])],
        "sample": {"what": what, "outcome": end, "environments": [describe(v) for v in s["variants"]]},
    }


def shrink(s):
    n = len(s["variants"])
    for a in range(n):
        for b in range(a + 1, n):
            if n > 2:
                yield dict(s, variants=[s["variants"][a], s["variants"][b]])
    base = s["variants"][0]
    for k, v in enumerate(s["variants"]):
        for f in ("threads", "start_method", "sched", "env"):
            if k and v[f] != base[f]:
                yield dict(s, variants=s["variants"][:k] + [dict(v, **{f: base[f]})] + s["variants"][k + 1 :])
    if any(v["threads"] != 1 for v in s["variants"]):
        yield dict(s, variants=[dict(v, threads=1) for v in s["variants"]])
    if s.get("faults"):
        yield dict(s, faults=[])
    if s["red"]["how"] == "cli" and s["what"] == "reduce":
        yield dict(s, red=dict(s["red"], how="main"))
    for x in c.shrink_common(s):
        if not (s.get("faults") and any(len(x[k]) != len(s[k]) for k in ("ign", "psr", "flame"))):
            yield x
