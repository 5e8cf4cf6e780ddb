"""C16: a reduction that was killed can simply be run again.

A run starts one whole reduction (run_drg/drgep/pfa, run_sa, main or the command line) one to three times with
something going wrong: process death, SIGINT, torn, short or failing writes, a full disk, failed allocations or a dying
worker, each at a chosen durable operation, executed line, scheduling event or solver step - of the starting model or
of a candidate.  The directory may hold the remains of another reduction (finished or interrupted, other method or limit).
After each interruption the same request on a copy of the directory - and at the end on the directory itself -
must return what an undisturbed run in an empty directory returns, and leave the same model file and saved samples.
"""

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 75}, "thorough": {"runs": 6000, "deadline": 3400}}
RULE = (
    "one run = one reduction x remains of an earlier one x 1-3 interruptions, each at one durable operation, line, scheduling event or "
    "solver step; non-trivial when an interruption took effect; distinct by (entry point, method, workers, earlier contents, "
    "per interruption: kind, operation it struck)"
)
ASSUMPTIONS = [
    "process-kill crash model: bytes handed to the kernel survive, user-space buffers are lost; no power loss",
    "earlier contents come from the same model and cases (saved samples of as many other cases are reused by design)",
]


def cut(rng, s):
    z = rng.random()
    if s["threads"] != 1 and z < 0.12:
        return {"how": "schedkill", "at": rng.choice([1, 2, 5, 10, 30, 100, rng.randint(1, 400)])}
    f = c.interruption(rng, s, ["disk"] * 6 + ["line"] * (0 if s["psr"] else 3) + ["step"] * 2)
    if f["how"] == "disk" and f["proc"] == "main" and rng.random() < 0.75:
        f["at"] = rng.randrange(1000)
        f["focus"] = rng.choice(["samples", "models"])
    if f["how"] == "step":
        f["exc"] = rng.choice(["kill", "kill", "interrupt", "memory"])
        if rng.random() < 0.7:
            f["short"] = rng.randint(0, 6)      # strikes candidates at least this much smaller
            f["n"] = rng.choice([1, 2, 5, 20, f["n"]])
    return f


def gen(rng, i, tier):
    s = refs.rich(rng, p_fault=0.15, methods=("DRG", "DRGEP", "DRGEP", "DRGEP", "PFA"), sa=0.4, how=("main", "graph", "cli"), limits=[1.0, 5.0, 10.0, 20.0, 40.0])
    s["psr"] = s["psr"][:1] if rng.random() < 0.2 and not s["red"].get("sa") else []
    if not (s["ign"] or s["psr"] or s["flame"]):
        s["flame"] = g.flame_cases(rng, 1)
        s["red"]["safe"] = list(dict.fromkeys(s["red"]["safe"] + [x for x in c.mixture_species(s) if x not in s["red"]["targets"]]))
    s["ign"] = s["ign"][:2]
    for x in s["ign"]:
        if x.pop("end_time", None):
            x["max_steps"] = 1000
    s["faults"] = [f for f in s["faults"] if f["case"] < len(s[f["kind"]])]
    s["start_method"] = "fork"
    if s["sched"]["quantum"] < 40:
        s["sched"]["quantum"] = rng.choice([40, 60, 100])
    s["before"] = rng.choice([None, None, None, "finished", "interrupted", "interrupted"])
    s["other"] = {"limit": rng.choice([0.5, 15.0, 60.0]), "method": rng.choice(["DRG", "DRGEP", "PFA"]), "how": "main", "sa": False}
    s["cuts"] = [cut(rng, s) for _ in range(rng.choice([1, 1, 2, 3]))]
    return s


def cfg_of(s, f, ref):
    base = refs.life_cfg(s)
    if f["how"] == "schedkill":
        base["sched"] = dict(s["sched"], kill_at=f["at"])
        return base
    x = c.interrupted_cfg(s, f, ref)
    if f["how"] == "step" and x.get("engine") and "short" in f:
        x["engine"] = [dict(e, when={"n_below": len(mechs.names(s["mech"])) - f["short"]}) for e in x["engine"]]
    x["engine"] = base.get("engine", []) + x.get("engine", [])
    return x


def describe(f):
    if f["how"] == "schedkill":
        return f"death of a worker at scheduling event {f['at']}"
    return c.describe_interruption(f) + (f" of a candidate at least {f['short'] + 1} species smaller" if "short" in f else "")


def outcome(d, L):
    """What a finished life returned and wrote: result, model file, saved samples."""
    r = L.results[-1]
    if "ok" not in r:
        return {"error": r["exc"], "message": r["msg"][:200]}
    v = refs.result(L)
    files = {}
    snap = d.snapshot()
    for k, b in snap.items():
        if k.endswith((".dat", ".txt")):
            files[k] = b
    name = (v or {}).get("filename")
    if name is not None:
        b = snap.get(name.replace("./", ""))
        files[name] = None if b is None else b"\n".join(l for l in b.splitlines() if not l.startswith(b"date:"))
    return {"value": v, "files": files}


def unlike(a, b):
    if "error" in a or "error" in b:
        if a.get("error") == b.get("error"):
            return None
        return f"ends with {a.get('error', 'success')} {a.get('message', '')}, an undisturbed run with {b.get('error', 'success')} {b.get('message', '')}"
    if (a["value"] is None) != (b["value"] is None):
        return "returns nothing"
    d = c.same_result(b["value"], a["value"]) if b["value"] else None
    if d:
        return f"differs from an undisturbed run in {d}"
    bad = sorted(k for k in b["files"] if a["files"].get(k) != b["files"][k])
    return f"leaves other files than an undisturbed run: {bad}" if bad else None


def run(s, ctx):
    op = c.reduce_op(s)
    fresh = refs.place(ctx, s)
    cfg0 = refs.life_cfg(s)
    if any(f["how"] == "line" for f in s["cuts"]):
        cfg0.update(c.COUNT_LINES)
    R = ctx.live(fresh, [op], cfg0, "undisturbed")
    what0 = refs.describe(s)
    c.must_finish(R, what0)
    want = outcome(fresh, R)
    if "error" in want and want["error"] != "SystemExit":
        ctx.probe("starting-model-fails")
        return {"nontrivial": False}
    ref = c.lengths(R)
    cuts = s["cuts"]
    cost = ref["steps"] + 400 * R.counters.get("pools", 0)
    if cost > 20000:
        # a long search: one interruption, or none
        cuts = cuts[:1]
        if cost > 40000:
            ctx.probe("too-long")
            return {"nontrivial": False}
    d = refs.place(ctx, s)
    if s.get("before"):
        o = dict(s, red=dict(s["red"], **s["other"]), faults=[])
        bcfg = refs.life_cfg(o)
        if s["before"] == "interrupted":
            bcfg = cfg_of(o, dict(s["cuts"][0]), ref)
        B = ctx.live(d, [c.reduce_op(o)], bcfg, "another reduction before")
        c.must_finish(B, "another reduction")

    def check(disk, L, what):
        c.must_finish(L, what)
        diff = unlike(outcome(disk, L), want)
        if diff:
            raise Violation("rerun-differs", f"{what}: {diff}")

    hit, key = 0, []
    for f in cuts:
        L = ctx.live(d, [op], cfg_of(s, f, ref), "interrupted")
        what = describe(f)
        if L.end not in ("exit", "killed"):
            raise Violation("abnormal-end", f"{what0}, hit by {what}: ended with {L.end}")
        if L.end == "exit" and L.ok():
            diff = unlike(outcome(d, L), want)
            if diff:
                raise Violation("wrong-under-fault", f"{what0}, hit by {what}, reports success but {diff}")
        if L.fired or L.counters.get("kills"):
            hit += 1
            struck = [l for l in L.log.splitlines() if l.endswith(("CRASH", "ERR", "SHORT", "SIGINT", "TORN"))][:1]
            name = struck[0].split()[:2] if struck else [f.get("kind"), "short" in f]
            key.append([f["how"], f.get("action") or f.get("exc"), f.get("errno"), name])
        ctx.probe("interrupted-" + (L.end if not L.ok() else "survived"))
        d2 = ctx.clone(d)
        again = f"{what0}, run again after {what}" + (f" (remains of another reduction: {s['before']})" if s.get("before") else "")
        check(d2, ctx.live(d2, [op], refs.life_cfg(s), "rerun on a copy"), again)
    if len(cuts) > 1:
        check(d, ctx.live(d, [op], refs.life_cfg(s), "rerun"), f"{what0}, run again after all interruptions")
    return {
        "key": [s["red"]["how"], s["red"].get("method"), s["red"].get("algo") if s["red"].get("sa") else None, s["threads"], s.get("before"), key],
        "nontrivial": hit > 0,
        "signature": [key, s.get("before"), [f["at"] if "at" in f else f["n"] for f in s["cuts"]]],
        "sample": {"what": what0, "cuts": [describe(f) for f in s["cuts"]], "struck": key, "before": s.get("before"), "ops": ref["ops"]},
    }


def shrink(s):
    for x in g.drop_each(s["cuts"]):
        if x:
            yield dict(s, cuts=x)
    if s.get("before"):
        yield dict(s, before=None)
        if s["before"] == "interrupted":
            yield dict(s, before="finished")
    for j, f in enumerate(s["cuts"]):
        if f["how"] != "schedkill":
            for f2 in c.shrink_interruption(f):
                yield dict(s, cuts=s["cuts"][:j] + [f2] + s["cuts"][j + 1 :])
    if s["red"]["how"] == "cli":
        yield dict(s, red=dict(s["red"], how="main"))
    for x in refs.shrink(s):
        yield x
