"""C09: a reported model file is complete, current and never torn.

A run is either one or more writes of a model onto one name, or a whole reduction, in a directory where
files of the names it will use may already exist, with processes dying, disk operations failing, being cut
short or torn, or signals arriving at chosen durable operations.  Success must leave the complete file of
exactly the returned model at the reported name; otherwise an error must be raised; and whatever happens,
no model file is ever seen torn: a single write leaves the old or the new version, byte for byte.
"""

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c, refs

LEVEL = "fault_enumeration"
BUDGET = {"quick": {"runs": 300}, "thorough": {"runs": 8000, "deadline": 3400}}
RULE = (
    "one run = one to three model writes, or one reduction, each hit at one durable operation (or line) of the "
    "real execution; non-trivial when the fault took effect; distinct by (operation, fault kind, errno, operation struck, outcome)"
)
ASSUMPTIONS = [
    "process-kill crash model: bytes handed to the kernel survive, user-space buffers are lost; no power loss",
    "a reduction may remove or replace files of the names of its candidates; it never leaves a torn one",
]


def gen(rng, i, tier):
    if rng.random() < 0.6:
        s = {"what": "write", "mech": mechs.spec(rng), "old": rng.choice([None, "model", "model", "junk"])}
        s["out"] = rng.choice(["", "", "copy.yaml", "reduced_9.yaml", "model_v2.yaml"])
        s["path"] = rng.choice(["", "out"])
        s["env"] = g.env(rng)
        s["cuts"] = [c.interruption(rng, s, ["disk"] * 8 + ["line"]) for _ in range(rng.choice([1, 1, 2, 3]))]
        s["again"] = rng.random() < 0.5
        return s
    s = refs.rich(rng, p_fault=0.2, sa=0.3, limits=[1.0, 10.0, 20.0, 40.0, 80.0])
    s["what"] = "reduce"
    s["psr"] = []
    s["ign"], s["flame"] = s["ign"][:1], s["flame"][:1]
    if not (s["ign"] or s["flame"]):
        s["flame"] = g.flame_cases(rng, 1)
        s["red"]["safe"] = list(dict.fromkeys(s["red"]["safe"] + [x for x in c.mixture_species(s) if x not in s["red"]["targets"]]))
    s["old"] = rng.choice([None, "model", "model"])
    s["cuts"] = [c.interruption(rng, s, ["disk"] * 9 + ["line"])]
    if s["cuts"][0].get("proc") == "workers":
        s["cuts"][0]["proc"] = "main"
    return s


OLD = "# an earlier model\n"


def old_text(s):
    if s["old"] == "junk":
        return OLD * 400
    # another valid model, recognisable by its first line
    return OLD + mechs.text(dict(s["mech"], inert=s["mech"].get("inert", 0) + 2, shuffle=False, clones=[]))


def run(s, ctx):
    return run_write(s, ctx) if s["what"] == "write" else run_reduce(s, ctx)


def run_write(s, ctx):
    text = mechs.text(s["mech"])
    phase = s["mech"].get("phase", "")
    d = c.put_model(ctx, s)
    op = {"op": "write", "model": s["mech"].get("file", "mech.yaml"), "phase": phase, "out": s["out"], "path": s["path"]}
    R = ctx.live(ctx.clone(d), [op], c.COUNT_LINES, "undisturbed write")
    if not (R.end == "exit" and R.ok()):
        raise Violation("write-fails", f"writing a model: {R.describe()}")
    name = R.value()["filename"]
    ref = c.lengths(R)
    old = None
    if s["old"]:
        old = old_text(s).encode()
        d.put(name, old)
    orig = old          # tells "still the earlier file" apart from an equal rewrite
    hit, key = 0, []
    for f in s["cuts"]:
        ops = [op, op] if s["again"] else [op]
        L = ctx.live(d, ops, c.interrupted_cfg(s, f, ref), "write under fault")
        what = f"writing {name} (earlier file: {s['old']}) hit by {c.describe_interruption(f)}"
        c.must_finish(L, what)
        got = d.read(name)
        success = False
        for k, r in enumerate(L.results):
            if "ok" in r:
                success = True
                if r["ok"]["filename"] != name:
                    raise Violation("wrong-name", f"{what}: reports {r['ok']['filename']}")
        if got is not None and got != old:
            diff = refs.unlike(got.decode("utf-8", "replace"), text_of(text, phase), phase)
            if diff:
                raise Violation("torn-file", f"{what}: {name} is neither the earlier nor the new file ({len(got)} bytes: {diff})")
        elif got is None and old is not None:
            raise Violation("file-lost", f"{what}: the earlier {name} has vanished ({L.describe()})")
        if success and (got is None or got == orig):
            raise Violation("not-written", f"{what}: reported success, but {name} is " + ("absent" if got is None else "still the earlier one"))
        if L.end == "exit" and not L.results:
            raise Violation("abnormal-end", f"{what}: no outcome")
        if got is not None:
            old = got
        if L.fired:
            hit += 1
            struck = [l for l in L.log.splitlines() if l.endswith(("CRASH", "ERR", "SHORT", "SIGINT", "TORN"))][:1]
            key.append([f["how"], f.get("action") or f.get("exc"), f.get("errno"), struck[0].split()[:1] if struck else None,
                        "killed" if L.end == "killed" else [("ok" if "ok" in r else r["exc"]) for r in L.results]])
    # whatever is left behind does not disturb a later write
    L = ctx.live(d, [op], {}, "later write")
    got = d.read(name)
    if not L.ok():
        raise Violation("later-write-fails", f"writing {name} after {[c.describe_interruption(f) for f in s['cuts']]}: {L.describe()}")
    diff = refs.unlike((got or b"").decode("utf-8", "replace"), text_of(text, phase), phase)
    if diff:
        raise Violation("torn-file", f"writing {name} undisturbed after {[c.describe_interruption(f) for f in s['cuts']]}: {diff}")
    return {"key": ["write", s["old"], key], "nontrivial": hit > 0, "signature": [key, [f["at"] for f in s["cuts"]]],
            "sample": {"cuts": [c.describe_interruption(f) for f in s["cuts"]], "struck": key, "old": s["old"]}}


def text_of(text, phase):
    import cantera as ct

    g_ = ct.Solution(yaml=text) if not phase else ct.Solution(yaml=text, name=phase)
    return g_.write_yaml()


def run_reduce(s, ctx):
    from .. import oracle

    text = mechs.text(s["mech"])
    phase = s["mech"].get("phase", "")
    names = mechs.names(s["mech"])
    f = s["cuts"][0]
    what = f"{refs.describe(s)}, hit by {c.describe_interruption(f)}"
    R = ctx.live(refs.place(ctx, s), [c.reduce_op(s)], dict(c.COUNT_LINES if f["how"] == "line" else {}, **refs.life_cfg(s)), "undisturbed")
    if not (R.end == "exit" and R.ok()):
        return {"nontrivial": False}
    d = refs.place(ctx, s)
    pre = f"{s['path']}/" if s.get("path") else ""
    old = {}
    if s["old"]:
        for n in range(2, len(names) + 1):
            d.put(f"{pre}reduced_{n}.yaml", old_text(s))
            old[f"cwd/{pre}reduced_{n}.yaml"] = old_text(s).encode()
    cfg = c.interrupted_cfg(s, f, c.lengths(R), refs.life_cfg(s))
    cfg["engine"] = refs.fault_plan(s) + cfg.get("engine", [])
    L = ctx.live(d, [c.reduce_op(s)], cfg, "reduction under fault")
    c.must_finish(L, what)

    def whole(k, v):
        g_ = refs.load(v.decode("utf-8", "replace"), phase)
        if g_ is None:
            raise Violation("torn-file", f"{what}: {k} is torn ({len(v)} bytes)")
        kept = set(g_.species_names)
        diff = refs.unlike(v.decode(), oracle.trimmed(text, phase, [x for x in names if x in kept]), phase)
        if diff:
            raise Violation("torn-file", f"{what}: {k} is incomplete or wrong: {diff}")
        return g_

    for k, v in d.snapshot().items():
        if k.startswith("cwd/") and "reduced_" in k and k.endswith(".yaml") and old.get(k) != v:
            whole(k, v)
    if L.end == "exit" and L.ok():
        v, w = refs.result(L), refs.result(R)
        if v is not None:
            if v["filename"] != w["filename"]:
                raise Violation("wrong-name", f"{what}: reports {v['filename']} instead of {w['filename']}")
            b = d.read(v["filename"])
            if b is None or b == old.get("cwd/" + v["filename"]):
                raise Violation("not-written", f"{what}: reported success, but {v['filename']} is {'absent' if b is None else 'the earlier file'}")
            g_ = whole(v["filename"], b)
            if list(g_.species_names) != v["model"]["species"]:
                raise Violation("file-differs", f"{what}: {v['filename']} is not the returned model")
            diff = c.same_result(dict(v, model=dict(v["model"], yaml=0)), dict(w, model=dict(w["model"], yaml=0)))
            if diff:
                raise Violation("result-differs", f"{what}: succeeded with another result than undisturbed: {diff}")
    struck = [l for l in L.log.splitlines() if l.endswith(("CRASH", "ERR", "SHORT", "SIGINT", "TORN"))][:1]
    end = "killed" if L.end == "killed" else "ok" if L.ok() else L.results[-1]["exc"]
    return {
        "key": [s["red"]["how"], s["red"].get("method"), bool(s["red"].get("sa")), f["how"], f.get("action") or f.get("exc"), f.get("errno"), struck[0].split()[:2] if struck else None, end],
        "nontrivial": bool(L.fired), "signature": [L.main_ops, end, f["at"]],
        "sample": {"what": what, "struck": struck, "end": end},
    }


def shrink(s):
    for x in g.drop_each(s["cuts"]):
        if x:
            yield dict(s, cuts=x)
    if s.get("old"):
        yield dict(s, old=None)
    for j, f in enumerate(s["cuts"]):
        for f2 in c.shrink_interruption(f):
            yield dict(s, cuts=s["cuts"][:j] + [f2] + s["cuts"][j + 1 :])
    if s["what"] == "write":
        if s.get("again"):
            yield dict(s, again=False)
        if s.get("path"):
            yield dict(s, path="")
        if s.get("out"):
            yield dict(s, out="")
        if s["mech"].get("clones"):
            yield dict(s, mech=dict(s["mech"], clones=[]))
    else:
        if s.get("faults"):
            yield dict(s, faults=[])
        if s["red"]["how"] == "cli":
            yield dict(s, red=dict(s["red"], how="main"))
        yield from c.shrink_common(s)
