"""C14: a successful run leaves only its results behind, and never touches its input files.

A run is one or two samplings, metric evaluations or reductions in a directory that already holds files of other
names, with any worker schedule and sticky failures of candidate models, sometimes cut short by a fault.  After a
success the directory tree must be the earlier one plus saved samples and reduced models, the temporary directory
empty and no file still open; after any ending the input files and the other files must be as they were.
"""

import re

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c, refs

BUDGET = {"quick": {"runs": 200}, "thorough": {"runs": 8000, "deadline": 3400}}
RULE = (
    "one run = one or two pyMARS runs with directory listings before and after; non-trivial when a run succeeded; "
    "distinct by (entry point, method, phenomena, threads, directory, outcome, files that appeared)"
)
ASSUMPTIONS = [
    "a file that carries the name of an output (reduced_*.yaml, the saved-sample files) may be replaced or removed",
    "rejected candidates' reduced_*.yaml files count as reduced models",
]

SAVED = {"ign": {"ignition_data.dat", "ignition_output.txt"}, "psr": {"psr_data.dat", "psr_output.txt"},
         "flame": {"laminarflame_data.dat", "laminarflame_output.txt"}}
OTHERS = {
    "notes.txt": "mine\n", "results.h5": "not really\n", "0_old.h5": "x\n", "mech_v2.yaml": "# another model\n", "out/keep.dat": "1 2 3\n",
    "out/mech.yaml": "# not the input\n", "out/ignition_data.dat.bak": "x\n", ".cache/state": "y\n", "reduced.txt": "z\n", "data/tmpfile": "t\n",
}


def gen(rng, i, tier):
    if rng.random() < 0.45:
        s = {"mech": mechs.spec(rng, small=True), "what": rng.choice(["sample", "sample", "metrics"]), "faults": []}
        n = rng.choice([1, 2, 3, 5, 8])
        s["ign"] = g.ign_cases(rng, n) if rng.random() < 0.8 else []
        s["psr"] = g.psr_cases(rng, rng.choice([1, 2])) if rng.random() < 0.3 else []
        s["flame"] = g.flame_cases(rng, rng.choice([1, 2, 4])) if rng.random() < 0.4 or not (s["ign"] or s["psr"]) else []
        s["mfs"] = None
        s["threads"] = rng.choice([1, 2, 3, 5, None])
        s["path"] = rng.choice(["", "out", "out/deep"])
        s["sched"], s["env"] = g.sched(rng), g.env(rng)
        s["start_method"] = rng.choice(["fork", "fork", "spawn"])
        s["red"] = {"how": "main"}
    else:
        s = refs.rich(rng, p_fault=0.5, sa=0.5, limits=[1.0, 10.0, 20.0, 40.0])
        s["what"] = "reduce"
        if s["red"].get("sa"):
            s["psr"] = []
            if not (s["ign"] or s["flame"]):
                s["flame"] = g.flame_cases(rng, 1)
                s["red"]["safe"] = list(dict.fromkeys(s["red"]["safe"] + [x for x in c.mixture_species(s) if x not in s["red"]["targets"]]))
            s["faults"] = [f for f in s["faults"] if f["case"] < len(s[f["kind"]])]
        if s["sched"]["quantum"] < 40:
            s["sched"]["quantum"] = 40
    s["again"] = rng.random() < 0.25
    s["cut"] = c.interruption(rng, s) if rng.random() < 0.2 else None
    return s


def place(s, ctx):
    d = refs.place(ctx, s)
    for n, v in OTHERS.items():
        d.put(n, v)
    return d


def check_inputs(d, before, what):
    after = d.snapshot()
    for n, v in before.items():
        base = n.rsplit("/", 1)[-1]
        if base.startswith("reduced_") and base.endswith(".yaml") or any(base in x for x in SAVED.values()):
            continue
        if n not in after:
            raise Violation("input-removed" if base in ("mech.yaml", "my mech.yml", "input.yaml") else "file-removed", f"{what}: {n} was removed")
        if after[n] != v:
            raise Violation("input-modified" if base in ("mech.yaml", "my mech.yml", "input.yaml") else "file-modified", f"{what}: {n} was modified")


def run(s, ctx):
    from os import path as osp

    what = f"{s['what']} ({[len(s[k]) for k in ('ign', 'psr', 'flame')]} cases, threads {s['threads']})" if s["what"] != "reduce" else refs.describe(s)
    op = c.reduce_op(s) if s["what"] == "reduce" else c.base_op(s, s["what"])
    d = place(s, ctx)
    before = d.snapshot()
    old = set(d.files())
    cfg = refs.life_cfg(s)
    if s["cut"]:
        R = ctx.live(place(s, ctx), [op], dict(cfg, **(c.COUNT_LINES if s["cut"]["how"] == "line" else {})), "undisturbed")
        c.must_finish(R, what)
        k = c.interrupted_cfg(s, s["cut"], c.lengths(R), cfg)
        k["engine"] = refs.fault_plan(s) + [x for x in k.get("engine", []) if x not in cfg["engine"]]
        L = ctx.live(d, [op], k, "cut short")
        c.must_finish(L, what)
        check_inputs(d, before, f"{what}, hit by {c.describe_interruption(s['cut'])}")
        return {"key": [s["what"], s["red"].get("method"), s["cut"]["how"], s["cut"].get("action") or s["cut"].get("exc"), L.end],
                "nontrivial": bool(L.fired), "sample": {"what": what, "cut": c.describe_interruption(s["cut"])}}
    L = ctx.live(d, [op] * (2 if s["again"] else 1), cfg, "run")
    c.must_finish(L, what)
    if L.end != "exit":
        raise Violation("abnormal-end", f"{what}: ended with {L.end}")
    check_inputs(d, before, what)
    end = "ok" if L.ok() else L.results[-1]["exc"]
    new = sorted(set(d.files()) - old)
    if all("ok" in r for r in L.results):
        allowed = set()
        for k, names in SAVED.items():
            if s[k]:
                allowed |= {f"cwd/{n}" for n in names}
        where = {osp.normpath("cwd/" + (s.get("path") or ""))}
        for n in new:
            if n in allowed or (s["what"] == "reduce" and osp.dirname(n) in where and re.fullmatch(r"reduced_\w+\.yaml", osp.basename(n))):
                continue
            raise Violation("left-behind", f"{what}: left {n} behind (new files: {new[:8]})")
        for r in L.results:
            if r.get("open"):
                raise Violation("left-open", f"{what}: files still open at the end: {r['open'][:4]}")
        if s["what"] == "reduce":
            v = refs.result(L)
            if v is not None and d.read(v["filename"]) is None:
                raise Violation("result-missing", f"{what}: {v['filename']} does not exist")
    return {
        "key": [s["what"], s["red"]["how"], s["red"].get("method"), bool(s["red"].get("sa")), [len(s[k]) > 0 for k in ("ign", "psr", "flame")],
                s["threads"], s.get("path"), s["again"], end, len(new)],
        "nontrivial": end == "ok", "signature": [end, new, L.main_ops],
        "sample": {"what": what, "outcome": end, "appeared": new},
    }


def shrink(s):
    if s["again"]:
        yield dict(s, again=False)
    if s.get("faults"):
        for x in g.drop_each(s["faults"]):
            yield dict(s, faults=x)
    if s["red"]["how"] == "cli":
        yield dict(s, red=dict(s["red"], how="main"))
    if s["cut"]:
        for f in c.shrink_interruption(s["cut"]):
            yield dict(s, cut=f)
    for x in c.shrink_common(s):
        if not (s.get("faults") and any(len(x[k]) != len(s[k]) for k in ("ign", "psr", "flame"))):
            if not (s["cut"] and s["cut"]["how"] == "step" and not x.get(s["cut"]["kind"])):
                yield x
