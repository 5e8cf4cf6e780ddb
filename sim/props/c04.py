"""C04: an interrupted sampling run never corrupts a later one.

A run samples one request on a private disk through a sequence of interrupted lives (process death,
SIGINT, torn, short or failing writes, a full disk, failed allocations, solver errors, each at a
chosen durable operation, executed line or solver step of the real code), starting from an empty
directory, from usable samples of an earlier request, or from samples of another model.  After every
interruption a fault-free life on a copy of the disk must return exactly what an undisturbed run on an
empty disk returns, and so must the last one on the disk itself; what it saved must then serve reuse.
"""

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c

BUDGET = {"quick": {"runs": 420}, "thorough": {"runs": 4000, "deadline": 3400}}
RULE = (
    "one run = one request x earlier contents x 1-3 interruptions, each at one durable operation, line "
    "or solver step of the real sampling run; non-trivial when an interruption took effect; distinct by "
    "(cases, workers, earlier contents, per interruption: kind, errno, operation it struck)"
)
ASSUMPTIONS = [
    "process-kill crash model: bytes handed to the kernel survive, user-space buffers are lost; no power loss",
]


def gen(rng, i, tier):
    s = {"mech": mechs.spec(rng, small=True)}
    s["ign"] = g.ign_cases(rng, rng.choice([0, 1, 1, 2, 3]))
    s["psr"] = g.psr_cases(rng, rng.choice([0, 0, 0, 1, 2]))
    s["flame"] = g.flame_cases(rng, rng.choice([0, 1, 1, 2]))
    if not (s["ign"] or s["psr"] or s["flame"]):
        s["ign"] = g.ign_cases(rng, 1)
    s["threads"] = rng.choice([1, 1, 1, 2, 3])
    s["path"] = rng.choice(["", "", "out"])
    s["sched"] = g.sched(rng)
    s["env"] = g.env(rng)
    s["start_method"] = "fork"
    s["before"] = rng.choice([None, None, "more", "fewer", "model", "interrupted-more", "interrupted-model"])
    s["cuts"] = [c.interruption(rng, s) for _ in range(rng.choice([1, 1, 2, 3]))]
    return s


def other(s):
    """The earlier request: other numbers of cases, or another (wider) model."""
    b = s["before"]
    o = c.base_op(s, "sample")
    if b.endswith("model"):
        o["model"] = "other.yaml"
        return o
    for k in ("ign", "psr", "flame"):
        if not s[k]:
            continue
        if b.endswith("more"):
            x = s[k][-1]
            o[k] = s[k] + [dict(x, T=x["T"] + (137.0 if k != "psr" else 33.0))]
        elif len(s[k]) > 1:
            o[k] = s[k][:-1]
    return o


def place(ctx, s):
    d = c.put_model(ctx, s)
    if s.get("before", "") and s["before"].endswith("model"):
        d.put("other.yaml", mechs.text(dict(s["mech"], inert=s["mech"].get("inert", 0) + 1)))
    return d


def run(s, ctx):
    op = c.base_op(s, "sample")
    fresh = c.put_model(ctx, s)
    count = c.COUNT_LINES if any(f["how"] == "line" for f in s["cuts"]) else {}
    R = ctx.live(fresh, [dict(op, threads=1)], dict(count), "undisturbed")
    if not (R.end == "exit" and R.ok()):
        return {"nontrivial": False}
    want = R.value()
    saved = {k: v for k, v in fresh.snapshot().items() if k.endswith((".dat", ".txt"))}
    if op["threads"] != 1:
        d0 = c.put_model(ctx, s)
        R = ctx.live(d0, [op], dict(count, sched=s["sched"], **s["env"]), "undisturbed, workers")
        if not R.ok():
            raise Violation("parallel-fails", f"sampling with {op['threads']} workers: {R.describe()}")
    ref = c.lengths(R)
    d = place(ctx, s)
    if s.get("before"):
        o = other(s)
        if s["before"].startswith("interrupted"):
            B = ctx.live(d, [o], c.interrupted_cfg(s, s["cuts"][0], ref), "earlier request, interrupted")
            c.must_finish(B, "earlier request")
        else:
            B = ctx.live(d, [dict(o, threads=1)], {}, "earlier request")
            if not B.ok():
                return {"nontrivial": False}

    def check(L, what):
        c.must_finish(L, what)
        if not L.ok():
            raise Violation("rerun-fails", f"{what}: {L.describe()}")
        diff = c.same_result(want, L.value())
        if diff:
            raise Violation("rerun-differs", f"{what}: differs from an undisturbed run in {diff}")

    hit, key = 0, []
    for f in s["cuts"]:
        L = ctx.live(d, [op], c.interrupted_cfg(s, f, ref), "interrupted")
        what = c.describe_interruption(f)
        if L.end not in ("exit", "killed"):
            raise Violation("abnormal-end", f"sampling hit by {what}: ended with {L.end}")
        if L.end == "exit" and L.ok():
            diff = c.same_result(want, L.value())
            if diff:
                raise Violation("wrong-under-fault", f"sampling hit by {what} reported success, differing in {diff}")
        if L.fired or L.counters.get("kills"):
            hit += 1
            struck = [l for l in L.log.splitlines() if l.endswith(("CRASH", "ERR", "SHORT", "SIGINT", "TORN"))][:1]
            key.append([f["how"], f.get("action") or f.get("exc"), f.get("errno"), struck[0].split()[:2] if struck else f.get("kind")])
        ctx.probe("interrupted-" + (L.end if not L.ok() else "survived"))
        d2 = ctx.clone(d)
        check(ctx.live(d2, [dict(op, threads=1)], {}, "rerun on a copy"), f"sampling again after {what}" + (f" (earlier: {s['before']})" if s.get("before") else ""))
        m = ctx.live(ctx.clone(d), [c.base_op(s, "metrics", reuse=True, threads=1)], {}, "metrics on a copy")
        c.must_finish(m, "metrics after " + what)
        if not m.ok():
            raise Violation("rerun-fails", f"metrics with reuse after {what}: {m.describe()}")
    check(ctx.live(d, [op], dict(s["env"], sched=s["sched"]), "rerun"), "sampling again after all interruptions")
    left = {k: v for k, v in d.snapshot().items() if k.endswith((".dat", ".txt"))}
    for k, v in saved.items():
        if left.get(k) != v:
            raise Violation("saved-differs", f"{k} saved after interruptions differs from an undisturbed run's")
    check(ctx.live(d, [dict(op, threads=1)], {}, "reuse"), "reusing what the rerun saved")
    return {
        "key": [len(s["ign"]), len(s["psr"]), len(s["flame"]), s["threads"], s.get("before"), key],
        "nontrivial": hit > 0,
        "signature": [key, s.get("before"), [f["at"] for f in s["cuts"]]],
        "sample": {"cuts": [c.describe_interruption(f) for f in s["cuts"]], "struck": key, "before": s.get("before"), "ops": ref["ops"]},
    }


def shrink(s):
    for x in g.drop_each(s["cuts"]):
        if x:
            yield dict(s, cuts=x)
    if s.get("before"):
        yield dict(s, before=None)
        if s["before"].startswith("interrupted-"):
            yield dict(s, before=s["before"].split("-")[1])
    for j, f in enumerate(s["cuts"]):
        for f2 in c.shrink_interruption(f):
            yield dict(s, cuts=s["cuts"][:j] + [f2] + s["cuts"][j + 1 :])
    yield from c.shrink_common(s)
