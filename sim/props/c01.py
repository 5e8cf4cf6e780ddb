"""C01: results do not depend on how the cases are scheduled over worker processes."""

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c_

BUDGET = {"quick": {"runs": 260}, "thorough": {"runs": 6000, "deadline": 3400}}
RULE = (
    "one run = one mechanism x case mix x thread count x start method x seeded worker schedule, "
    "compared with a serial process and with single-case references; non-trivial when at least "
    "two cases ran in at least two scheduling decisions; distinct by (case mix, threads, start "
    "method, decision count)"
)
ASSUMPTIONS = [
    "process pools reached through multiprocessing.Pool / concurrent.futures (stubbed by the scheduler)",
    "laminar flames are solved by the stub model in most runs",
]


def gen(rng, i, tier):
    s = {"mech": mechs.spec(rng, small=True), "kind": rng.choice(["sample", "metrics"])}
    mix = rng.random()
    if mix < 0.45:
        s["ign"] = g.ign_cases(rng, rng.choice([1, 2, 3, 4, 5, 8, 11, 13]))
        s["psr"] = g.psr_cases(rng, rng.choice([0, 0, 1, 2]))
        s["flame"] = g.flame_cases(rng, rng.choice([0, 0, 1, 3]))
    elif mix < 0.7:
        s["ign"] = []
        s["psr"] = g.psr_cases(rng, rng.choice([1, 2, 3, 5]))
        s["flame"] = g.flame_cases(rng, rng.choice([0, 1, 2]))
    else:
        s["ign"] = g.ign_cases(rng, rng.choice([0, 1, 2]))
        s["psr"] = g.psr_cases(rng, rng.choice([0, 0, 1]))
        s["flame"] = g.flame_cases(rng, rng.choice([1, 2, 6, 11, 14]))
    s["threads"] = rng.choice([0, 0, 2, 2, 3, 4, 5, 8, 16])
    s["env"] = g.env(rng)
    s["sched"] = g.sched(rng)
    s["start_method"] = rng.choice(["fork", "fork", "spawn"])
    s["path"] = rng.choice(["", "", "out", "./out"])
    s["mfs"] = rng.choice([None, None, None, 0.01, 0.3])
    s["single"] = rng.randrange(1000)
    for k in ("ign", "psr", "flame"):
        if len(s[k]) > 1 and rng.random() < 0.4:
            # cases that share temperature and pressure, or everything
            x = s[k][0]
            for j in range(1, len(s[k])):
                if rng.random() < 0.6:
                    s[k][j] = dict(s[k][j], T=x["T"], P=x["P"]) if rng.random() < 0.8 else dict(x)
    return s


def op_of(s, **kw):
    o = {
        "op": s["kind"], "model": s["mech"].get("file", "mech.yaml"), "phase": s["mech"].get("phase", ""),
        "ign": s["ign"], "psr": s["psr"], "flame": s["flame"], "threads": s["threads"],
        "path": s["path"], "mfs": s["mfs"],
    }
    o.update(kw)
    return o


def fresh(ctx, s):
    d = ctx.disk()
    d.put(s["mech"].get("file", "mech.yaml"), mechs.text(s["mech"]))
    if s["path"]:
        d.mkdir(s["path"])
    return d


def run(s, ctx):
    import numpy as np

    from .. import oracle

    text = mechs.text(s["mech"])
    d1 = fresh(ctx, s)
    a = ctx.live(d1, [op_of(s, threads=1)], {}, "serial")
    d2 = fresh(ctx, s)
    cfg = dict(s["env"], sched=s["sched"], start_method=s["start_method"])
    b = ctx.live(d2, [op_of(s)], cfg, "parallel")
    if not (a.end == "exit" and a.ok()):
        # e.g. a flame below the requested floor: then parallel must fail the same way
        if b.end == a.end and not b.ok() and b.results and b.results[-1]["exc"] == a.results[-1]["exc"]:
            return {"nontrivial": False, "key": None}
        if b.end == "exit" and b.ok():
            raise Violation("parallel-differs", f"serial fails ({a.describe()}) but threads={s['threads']} succeeds")
        if not (b.end == "exit" and b.results and "RuntimeError" in b.results[-1].get("mro", [])):
            raise Violation("parallel-differs", f"serial: {a.describe()}; threads={s['threads']}: {b.describe()}")
        return {"nontrivial": False, "key": None}
    if not (b.end == "exit" and b.ok()):
        raise Violation(
            "parallel-fails",
            f"serial succeeds but threads={s['threads']} start={s['start_method']} gives {b.describe()}",
        )
    va, vb = a.value(), b.value()
    if va != vb:
        what = [k for k in va if va[k] != vb[k]]
        ma, mb = va["metrics"], vb["metrics"]
        diff = [i for i in range(min(len(ma), len(mb))) if ma[i] != mb[i]]
        raise Violation(
            "parallel-differs",
            f"threads={s['threads']} start={s['start_method']} differs from serial in {what}: "
            f"{len(ma)} vs {len(mb)} metrics, first differing entries {[(i, ma[i], mb[i]) for i in diff[:3]]}",
        )
    if s["kind"] == "sample":
        fa = {k: v for k, v in d1.snapshot().items()}
        fb = {k: v for k, v in d2.snapshot().items()}
        if fa != fb:
            raise Violation(
                "files-differ",
                f"saved files differ between serial and threads={s['threads']}: "
                f"{sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k))}",
            )
    # order and value of every entry: ignition, PSR, flame, each in input order
    want = oracle.metrics(text, op_of(s), ctx.scratch)
    got = va["metrics"]
    if len(want) != len(got) or not np.allclose(got, want, rtol=1e-4, atol=0):
        bad = [i for i in range(min(len(want), len(got))) if not np.isclose(got[i], want[i], rtol=1e-4, atol=0)]
        raise Violation(
            "wrong-order-or-value",
            f"metrics not those of the cases in input order: entries {[(i, got[i], want[i]) for i in bad[:3]]}, "
            f"{len(got)} values for {len(want)} expected",
        )
    n = len(s["ign"]) + len(s["psr"]) + len(s["flame"])
    if s["kind"] == "sample":
        rows = 20 * len(s["ign"]) + 3 * len(s["psr"]) + 20 * len(s["flame"])
        if va["shape"][0] != rows:
            raise Violation("wrong-rows", f"{va['shape'][0]} sampled rows, {rows} expected")
        w = va["shape"][1]
        c_.valid_states(va["data"], w, f"sampling with threads={s['threads']}")
        for j, x in enumerate(s["ign"]):
            bad = oracle.check_ignition_rows(text, s["mech"].get("phase", ""), x, va["data"][20 * j * w : 20 * (j + 1) * w], w)
            if bad:
                raise Violation("wrong-states", f"sampled states of ignition case {j} are not those of its trajectory: {bad}")
        # one case alone must give exactly its block
        flat = [("ign", i) for i in range(len(s["ign"]))] + [("psr", i) for i in range(len(s["psr"]))] + [
            ("flame", i) for i in range(len(s["flame"]))]
        k, j = flat[s["single"] % n]
        one = {"ign": [], "psr": [], "flame": []}
        one[k] = [s[k][j]]
        d3 = fresh(ctx, s)
        c = ctx.live(d3, [op_of(s, threads=1, **one)], {}, "single")
        if not (c.end == "exit" and c.ok()):
            raise Violation("single-fails", f"case {k}[{j}] alone: {c.describe()}")
        start = {"ign": 0, "psr": 20 * len(s["ign"]), "flame": 20 * len(s["ign"]) + 3 * len(s["psr"])}[k]
        size = 3 if k == "psr" else 20
        w = va["shape"][1]
        lo = (start + size * j) * w
        if va["data"][lo : lo + size * w] != c.value()["data"]:
            raise Violation("case-not-independent", f"rows of case {k}[{j}] differ from the same case run alone")
        ctx.probe("single-case-blocks")
    if b.choices:
        ctx.probe("runs-with-worker-interleaving")
    if n > 9:
        ctx.probe("ten-or-more-cases")
    if s["start_method"] == "spawn" and b.counters.get("workers"):
        ctx.probe("spawned-workers")
    return {
        "key": [s["kind"], len(s["ign"]), len(s["psr"]), len(s["flame"]), s["threads"], s["start_method"], len(b.choices), s["env"]["cpu_count"]],
        "nontrivial": n >= 2 and len(b.choices) >= 2,
        "signature": b.choices[:200],
        "sample": {
            "cases": n, "threads": s["threads"], "start": s["start_method"],
            "schedule_choices": b.choices[:30], "decisions": len(b.choices), "metrics": got[:4],
        },
        "resolved": s,
    }


def shrink(s):
    yield from g.shrink_cases(s)
    for t in (2, 3):
        if s["threads"] > t or s["threads"] == 0:
            yield dict(s, threads=t)
    if s["start_method"] != "fork":
        yield dict(s, start_method="fork")
    if s["path"]:
        yield dict(s, path="")
    if s["mfs"] is not None:
        yield dict(s, mfs=None)
    if s["sched"].get("policy") != "fifo":
        yield dict(s, sched=dict(s["sched"], policy="fifo"))
    if s["sched"].get("quantum") != 1000:
        yield dict(s, sched=dict(s["sched"], quantum=1000))
    m = s["mech"]
    if m.get("clones"):
        yield dict(s, mech=dict(m, clones=[]))
    if m.get("inert"):
        yield dict(s, mech=dict(m, inert=0))
