"""C10: runs in one process do not influence each other.

A sequence of runs (samplings, evaluations, reductions by any method and entry point, model writes, PSR
traces), some of them failing or interrupted, is executed once in a single simulated process and once with a
fresh process per run, each run in its own directory; every outcome, returned model and file must be the same.
Runs may be handed the very same condition, target, retained-species and candidate lists; these, and the
results already returned to the caller, must be unchanged at the end.
"""

import re

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 72}, "thorough": {"runs": 4000, "deadline": 3400}}
RULE = (
    "one run = two to four pyMARS runs in one process against fresh processes; non-trivial when at least two of them "
    "did work; distinct by the sequence of (kind, method, sharing, how it was disturbed, outcome)"
)
ASSUMPTIONS = ["files carry the date of writing, which is not compared"]


def lists(rng, mech):
    """Arguments of a run."""
    s = {"ign": [], "psr": [], "flame": []}
    while not (s["ign"] or s["psr"] or s["flame"]):
        if rng.random() < 0.7:
            s["ign"] = g.ign_cases(rng, rng.choice([1, 1, 2]), simple=True)
        if rng.random() < 0.06:
            s["psr"] = g.psr_cases(rng, 1)
        if rng.random() < 0.4:
            s["flame"] = g.flame_cases(rng, 1)
    for x in s["ign"]:
        x["max_steps"] = rng.choice([800, 1000])
    return s


def item(rng, base):
    s = dict(base)
    z = rng.random()
    s["threads"] = rng.choice([1, 1, 1, 2, 3])
    s["path"] = rng.choice(["", "", "out"])
    # a flame-speed floor of one run (often above any flame) is no concern of the others
    s["mfs"] = rng.choice([None, None, None, 0.02, 0.2, 8.0]) if s["flame"] else None
    if z < 0.14:
        it = c.base_op(s, "sample")
    elif z < 0.22:
        it = c.base_op(s, "metrics", reuse=rng.random() < 0.5)
    elif z < 0.28:
        it = c.base_op(s, "write", out=rng.choice(["", "copy.yaml"]))
    else:
        s["red"] = dict(s["red"])
        r = rng.random()
        s["red"]["limit"] = rng.choice([1.0, 5.0, 5.0, 20.0, 60.0] if not s.get("psr") else [1.0, 5.0])
        s["red"]["method"] = rng.choice(["DRG", "DRGEP", "DRGEP", "PFA"])
        s["red"]["algo"] = rng.choice(["initial", "initial", "greedy"])
        s["red"]["sa"] = False
        s["red"]["upper"] = rng.choice([None, 0.1, 0.4])
        if r < 0.25:
            s["red"]["how"] = "graph"
        elif r < 0.4:
            s["red"].update(how="cli", auto=[x for x in c.mixture_species(s)], sa=rng.random() < 0.2)
            if rng.random() < 0.7 and not any(x not in s["red"]["auto"] for x in s["red"]["safe"]):
                s["red"]["safe"] = s["red"]["safe"] + [rng.choice([x for x in mechs.names(s["mech"]) if x not in s["red"]["auto"] + s["red"]["targets"]])]
        elif r < 0.55:
            s["red"]["how"] = "main"
        elif r < 0.75:
            s["red"].update(how=rng.choice(["main", "main", "cli"]), sa=True)
        else:
            s["red"].update(how=rng.choice(["main", "sa", "sa"]), sa=True, method=None)
            if s["red"]["how"] == "sa":
                names = mechs.names(s["mech"])
                s["red"]["limbo"] = rng.choice([None, rng.sample(names, 3)])
        it = c.reduce_op(s)
        if s["red"]["how"] == "cli":
            it["input"] = c.cli_input(s, "MODEL")
            if rng.random() < 0.7:
                it["op"] = "dict"
        if s["red"]["how"] == "main":
            it["omit"] = rng.random() < 0.5
    y = rng.random()
    if y < 0.15:
        kind = rng.choice([k for k in ("ign", "psr", "flame") if s[k]])
        j = rng.randrange(len(s[kind]))
        it["engine"] = [{"kind": kind, "t0": s[kind][j]["T"], "exc": rng.choice(["cantera", "cantera", "memory", "interrupt"]),
                         "at": {"ign": rng.choice([1, 20, 90]), "psr": 20, "flame": 2}[kind]}]
        if it["engine"][0]["exc"] == "cantera" and rng.random() < 0.5:
            it["engine"][0]["when"] = {"n_below": len(mechs.names(s["mech"])) - rng.randint(0, 3)}
    elif y < 0.3:
        it["line_at"] = rng.randrange(1000)
        it["line_exc"] = rng.choice(["interrupt", "memory"])
    elif y < 0.4:
        it["disk_at"] = rng.randrange(1000)
        it["disk_errno"] = rng.choice(["ENOSPC", "EIO"])
    return it


def gen(rng, i, tier):
    m = mechs.spec(rng, small=True)
    m2 = mechs.spec(rng, small=True)
    a = lists(rng, m)
    s = {"models": [m, m2], "sched": g.sched(rng), "env": g.env(rng), "items": []}
    bases = []
    for m_ in (m, m2):
        b = dict(a, mech=m_)
        b["red"] = c.reduction(rng, b)
        for k in ("limbo", "upper", "sa"):
            b["red"].pop(k, None)
        bases.append(b)
    share = rng.random() < 0.6
    for k in range(rng.choice([2, 2, 2, 3, 3, 4])):
        w = 0 if rng.random() < 0.75 else 1
        b = bases[w]
        if rng.random() < 0.25:
            b = dict(b, **lists(rng, b["mech"]))
            b["red"] = dict(b["red"], safe=list(dict.fromkeys(b["red"]["safe"] + [x for x in c.mixture_species(b) if x not in b["red"]["targets"]])))
            own = True
        else:
            own = False
        it = item(rng, b)
        it["w"] = w
        if share and not own and it["op"] != "cli":
            it["share"] = f"s{w}"
            it["threads"] = it.get("threads", 1)
        s["items"].append(it)
    return s


def ready(it, k):
    """The operation of item ``k``: own directory, own model file name."""
    op = {x: v for x, v in it.items() if x not in ("w", "line_at", "line_exc", "disk_at", "disk_errno")}
    op["cwd"] = f"r{k}"
    op["model"] = f"mech{k}.yaml"
    return op


def place(ctx, s, d, k):
    it = s["items"][k]
    d.put(f"r{k}/mech{k}.yaml", mechs.text(s["models"][it["w"]]))
    d.mkdir(f"r{k}/out")
    if it.get("input"):
        d.put(f"r{k}/input.yaml", it["input"].replace("MODEL", f"mech{k}.yaml"))


def life(s):
    return dict(s["env"], sched=s["sched"])


def outcome(r):
    if "ok" in r:
        return r
    # names of temporary files and of the simulated disk differ
    msg = re.sub(r"/\S*/d\d+/|tmp\w{8}|0x[0-9a-f]+", "", r["msg"])
    return {"exc": r["exc"], "msg": msg, "code": r.get("code")}


def files(d, k):
    out = {}
    for n, v in d.snapshot().items():
        if n.startswith(f"cwd/r{k}/"):
            out[n] = b"\n".join(x for x in v.splitlines() if not x.startswith(b"date:")) if n.endswith(".yaml") else v
    return out


def label(it):
    r = [it["op"], it.get("method"), it.get("algo") if it.get("sa") or it["op"] == "sa" else None, bool(it.get("share"))]
    r.append("engine-" + it["engine"][0]["exc"] if it.get("engine") else "line-" + it["line_exc"] if "line_at" in it else "disk" if "disk_at" in it else None)
    return r


def run(s, ctx):
    n = len(s["items"])
    # fresh process for each run
    want, ops = [], []
    for k, it in enumerate(s["items"]):
        op = ready(it, k)
        alone = {x: v for x, v in op.items() if x != "share"}
        if "line_at" in it or "disk_at" in it:
            # how long is it undisturbed?
            d = ctx.disk()
            place(ctx, s, d, k)
            L = ctx.live(d, [alone], dict(life(s), **(c.COUNT_LINES if "line_at" in it else {})), "length")
            c.must_finish(L, f"run {k}")
            if "line_at" in it:
                x = {"line_fault": {"at": max(1, L.counters.get("lines", 0) * it["line_at"] // 1000), "exc": it["line_exc"]}}
            else:
                x = {"disk": [{"action": "err", "errno": it["disk_errno"], "at": L.main_ops * it["disk_at"] // 1000,
                               "mask": c.M_SPACE if it["disk_errno"] == "ENOSPC" else 0}]}
            op.update(x)
            alone.update(x)
        d = ctx.disk()
        place(ctx, s, d, k)
        L = ctx.live(d, [alone], life(s), f"fresh process, run {k}")
        c.must_finish(L, f"run {k}")
        if L.end != "exit" or len(L.results) != 1:
            return {"nontrivial": False}
        want.append((outcome(L.results[0]), files(d, k)))
        ops.append(op)
    # all in one process
    d = ctx.disk()
    for k in range(n):
        place(ctx, s, d, k)
    L = ctx.live(d, ops + [{"op": "recheck"}], life(s), "one process")
    c.must_finish(L, "sequence")
    if L.end != "exit" or len(L.results) != n + 1:
        raise Violation("abnormal-end", f"a sequence of runs in one process ended with {L.describe()} after {len(L.results)} runs")
    for k in range(n):
        got, ref = outcome(L.results[k]), want[k][0]
        what = f"run {k} ({label(s['items'][k])}) after {[label(x) for x in s['items'][:k]]} in one process"
        if ("ok" in got) != ("ok" in ref):
            raise Violation("other-outcome", f"{what}: {brief(got)} instead of {brief(ref)}")
        if "ok" in got:
            diff = c.same_result(got["ok"], ref["ok"])
            if diff:
                raise Violation("other-result", f"{what} gives another result than in a fresh process: {diff}")
        elif got != ref:
            raise Violation("other-outcome", f"{what}: {brief(got)} instead of {brief(ref)}")
        a, b = files(d, k), want[k][1]
        bad = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))
        if bad:
            raise Violation("other-files", f"{what} leaves other files than in a fresh process: {bad[:4]}")
    chk = L.value()
    if chk["args"]:
        k, (was, now) = sorted(chk["args"].items())[0]
        raise Violation("argument-changed", f"the caller's {k.split('/')[1]} list was changed by {[label(x) for x in s['items']]}: {was[:200]} became {now[:200]}")
    if chk["results"]:
        raise Violation("result-changed", f"the result returned by reduction {chk['results'][0][0]} of {[label(x) for x in s['items']]} was changed later: {chk['results'][0][1]}")
    p = chk["process"]
    good = {"cwd": f"r{n - 1}", "sigint": True, "stdout": True, "stderr": True}
    for x, v in good.items():
        if p[x] != v:
            raise Violation("process-changed", f"after {[label(y) for y in s['items']]} the process has {x} = {p[x]}")
    key = [label(it) + [("ok" if "ok" in w[0] else w[0]["exc"])] for it, w in zip(s["items"], want)]
    worked = sum(1 for it in s["items"] if it["op"] != "write")
    return {"key": key, "nontrivial": worked >= 2, "signature": [key, [list(sorted(w[1])) for w in want]], "sample": {"sequence": key}}


def brief(r):
    return "success" if "ok" in r else f"{r['exc']}: {r['msg'][:100]}"


def shrink(s):
    for x in g.drop_each(s["items"]):
        if x:
            yield dict(s, items=x)
    for k, it in enumerate(s["items"]):
        def alt(**kw):
            return dict(s, items=s["items"][:k] + [{x: v for x, v in dict(it, **kw).items() if v is not None}] + s["items"][k + 1 :])
        for x in ("engine", "line_at", "disk_at"):
            if x in it:
                yield alt(**{x: None})
        if it.get("share"):
            yield alt(share=None)
        if it.get("threads", 1) != 1:
            yield alt(threads=1)
        if it.get("omit"):
            yield alt(omit=None)
