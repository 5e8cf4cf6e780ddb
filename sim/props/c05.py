"""C05: saved samples are reused exactly when they match the request.

A run is a history in one directory: sampling calls over several models and case lists, metric
evaluations with and without reuse, read-backs, and damage to the saved files between calls (removed,
emptied, cut at any byte, rows dropped, foreign text, a file kept from an older sampling).  A reference
model of the store predicts for every call and every phenomenon whether the saved samples match; if they
do, exactly the saved values must come back without a single solver step, and if not, exactly those of
a sampling in an empty directory, which must also be what the store holds afterwards.
"""

import math

from .. import gen as g, mechs
from ..harness import Violation
from . import common as c

BUDGET = {"quick": {"runs": 300}, "thorough": {"runs": 6000, "deadline": 3400}}
RULE = (
    "one run = one history of 3-8 calls and damages in one directory; non-trivial when it has at least "
    "one reuse and one fresh sampling; distinct by the sequence of (call, per-phenomenon verdict, damage)"
)
ASSUMPTIONS = [
    "samples match when counts and width match (the documented test), whatever model of equal width made them",
]

FILES = {
    "ign": ("ignition_data.dat", "ignition_output.txt", 20, 1),
    "psr": ("psr_data.dat", "psr_output.txt", 3, 3),
    "flame": ("laminarflame_data.dat", "laminarflame_output.txt", 20, 1),
}


def gen(rng, i, tier):
    m = mechs.spec(rng, small=True)
    s = {"mechs": [m, dict(m, inert=m.get("inert", 0) + 1), dict(m, scale=0.3, seed=m["seed"] + 1)]}
    s["pool"] = {
        "ign": g.ign_cases(rng, rng.choice([1, 2, 3])),
        "psr": g.psr_cases(rng, rng.choice([0, 0, 1, 2])),
        "flame": g.flame_cases(rng, rng.choice([0, 1, 2])),
    }
    s["phase"] = m.get("phase", "")
    s["env"] = g.env(rng)
    s["sched"] = g.sched(rng)
    hist = []

    def request():
        r = {}
        for k in ("ign", "psr", "flame"):
            n = len(s["pool"][k])
            r[k] = rng.randint(0, n) if rng.random() < 0.6 else n
        if not any(r.values()):
            r["ign"] = 1
        return r

    last = request()
    for _ in range(rng.randint(3, 8)):
        z = rng.random()
        if z < 0.22 and hist:
            k = rng.choice(["ign", "psr", "flame"])
            hist.append({"do": "damage", "kind": k, "file": rng.choice([0, 1]),
                         "how": rng.choice(["remove", "empty", "cut", "cut", "rows", "rows", "text", "swap", "double", "nan", "more", "more"]),
                         "at": rng.randrange(1000)})
            continue
        if rng.random() < 0.5:
            last = request()
        h = dict(last)
        h["model"] = rng.choice([0, 0, 0, 0, 1, 2])
        h["threads"] = rng.choice([1, 1, 1, 2])
        h["path"] = rng.choice(["", "", "out"])
        h["do"] = "sample" if z < 0.68 else rng.choice(["metrics", "metrics", "plain", "read"])
        h["from"] = rng.choice([0, 0, 0, 1])
        hist.append(h)
    s["hist"] = hist
    return s


def parse(b):
    """Rows of floats, or None when the file is absent, empty, ragged or not numeric."""
    if b is None:
        return None
    try:
        rows = [[float(x) for x in l.split(",")] for l in b.decode().splitlines() if l.strip()]
    except ValueError:
        return None
    if not rows or any(len(r) != len(rows[0]) for r in rows) or any(not math.isfinite(x) for r in rows for x in r):
        return None
    return rows


def damage(d, h):
    name = FILES[h["kind"]][h["file"]]
    b = d.read(name)
    if h["how"] == "swap":
        other = FILES[h["kind"]][1 - h["file"]]
        o = d.read(other)
        if b is not None and o is not None:
            d.put(name, o)
        return
    if b is None:
        return
    if h["how"] == "remove":
        d.remove(name)
    elif h["how"] == "empty":
        d.put(name, b"")
    elif h["how"] == "cut":
        d.put(name, b[: len(b) * h["at"] // 1000])
    elif h["how"] == "rows":
        l = b.splitlines(keepends=True)
        d.put(name, b"".join(l[: max(0, len(l) - 1 - h["at"] % 3)]))
    elif h["how"] == "double":
        d.put(name, b + b)
    elif h["how"] == "more":
        # a few rows too many
        l = b.splitlines(keepends=True)
        d.put(name, b"".join(l + l[: 1 + h["at"] % 19]))
    elif h["how"] == "text":
        d.put(name, b"not,numbers\n" + b)
    elif h["how"] == "nan":
        l = b.splitlines(keepends=True)
        l[h["at"] % len(l)] = b",".join(b"nan" for _ in l[0].split(b",")) + b"\n"
        d.put(name, b"".join(l))


def run(s, ctx):
    d = ctx.disk()
    texts = [mechs.text(m) for m in s["mechs"]]
    width = []
    for j, t in enumerate(texts):
        d.put(f"m{j}.yaml", t)
        width.append(2 + len(mechs.names(s["mechs"][j])))
    d.mkdir("out")
    cache = {}

    def fresh(model, k, cases):
        key = (model, k, repr(cases))
        if key not in cache:
            f = ctx.disk()
            f.put("m.yaml", texts[model])
            o = {"op": "sample", "model": "m.yaml", "phase": s["phase"], k: cases}
            L = ctx.live(f, [o], {}, "reference")
            if L.end == "exit" and L.ok():
                v = L.value()
                w = v["shape"][1]
                cache[key] = (v["metrics"], [v["data"][a : a + w] for a in range(0, len(v["data"]), w)])
            else:
                cache[key] = None
        return cache[key]

    word, reused_any, fresh_any = [], 0, 0
    for n, h in enumerate(s["hist"]):
        if h["do"] == "damage":
            damage(d, h)
            word.append(["damage", h["kind"], h["file"], h["how"]])
            continue
        cases = {k: (s["pool"][k][h["from"] :] + s["pool"][k][: h["from"]])[: h.get(k, 0)] for k in FILES}
        what = f"call {n} of {[x['do'] for x in s['hist']]}: {h['do']} of model {h['model']} with {[len(cases[k]) for k in FILES]} cases"
        before = {k: (parse(d.read(FILES[k][0])), parse(d.read(FILES[k][1]))) for k in FILES}
        snap = d.snapshot()
        expect_m, expect_d, verdict, bad = [], [], [], False
        for k, (fd, fo, rows, per) in FILES.items():
            nc = len(cases[k])
            if not nc:
                verdict.append("-")
                continue
            dat, out = before[k]
            flat = [x for r in out for x in r] if out else None
            if h["do"] == "sample":
                hit = bool(out and dat and len(flat) == per * nc and len(dat) == rows * nc and len(dat[0]) == width[h["model"]])
            elif h["do"] == "metrics":
                hit = bool(out and len(flat) == per * nc)
            elif h["do"] == "plain":
                hit = False
            else:
                hit = True
                if d.read(fo) is None:
                    bad = True
                elif out is None:
                    bad = None
            verdict.append("reuse" if hit else "fresh")
            if hit:
                expect_m += flat or []
                expect_d += dat or []
            else:
                v = fresh(h["model"], k, cases[k])
                if v is None:
                    return {"nontrivial": False}
                expect_m += v[0]
                expect_d += v[1]
        if h["do"] == "read" and bad is None:
            word.append(["read-damaged"])
            continue
        o = {"op": {"sample": "sample", "metrics": "metrics", "plain": "metrics", "read": "read_metrics"}[h["do"]],
             "model": f"m{h['model']}.yaml", "phase": s["phase"], "threads": h["threads"], "path": h["path"],
             "reuse": h["do"] == "metrics", **cases}
        L = ctx.live(d, [o], dict(s["env"], sched=s["sched"]), what)
        c.must_finish(L, what)
        word.append([h["do"], h["model"], verdict])
        if h["do"] == "read" and bad:
            if L.ok():
                raise Violation("read-missing", f"{what}: metrics read although none are saved")
            continue
        if not L.ok():
            raise Violation("call-fails", f"{what} (expected {verdict}): {L.describe()}")
        v = L.value()
        if v["metrics"] != expect_m:
            raise Violation("wrong-metrics", f"{what} (expected {verdict}): metrics {v['metrics'][:5]}, expected {expect_m[:5]}")
        if "fresh" not in verdict and L.counters.get("nsteps", 0):
            raise Violation("not-reused", f"{what}: samples match, yet {L.counters['nsteps']} solver steps were taken")
        reused_any += "reuse" in verdict
        fresh_any += "fresh" in verdict
        if h["do"] == "sample":
            w = v["shape"][1]
            got = [v["data"][a : a + w] for a in range(0, len(v["data"]), w)]
            if got != expect_d:
                raise Violation("wrong-data", f"{what} (expected {verdict}): sampled states differ ({len(got)} rows, {len(expect_d)} expected)")
            pos, row = 0, 0
            for k, (fd, fo, rows, per) in FILES.items():
                nc = len(cases[k])
                if not nc:
                    continue
                dat, out = parse(d.read(fd)), parse(d.read(fo))
                flat = [x for r in out for x in r] if out else None
                if flat != expect_m[pos : pos + per * nc] or dat != expect_d[row : row + rows * nc]:
                    raise Violation("store-differs", f"{what}: afterwards the saved {k} samples are not those returned")
                pos += per * nc
                row += rows * nc
            untouched = [k for k in FILES if not cases[k]]
        else:
            untouched = list(FILES)
        after = d.snapshot()
        for k in untouched:
            for f in FILES[k][:2]:
                if snap.get("cwd/" + f) != after.get("cwd/" + f):
                    raise Violation("store-touched", f"{what}: changed {f}")
    return {
        "key": word,
        "nontrivial": reused_any > 0 and fresh_any > 0,
        "signature": word,
        "sample": {"history": word},
    }


def shrink(s):
    for x in g.drop_each(s["hist"]):
        if x:
            yield dict(s, hist=x)
    for k in ("ign", "psr", "flame"):
        if s["pool"][k]:
            yield dict(s, pool=dict(s["pool"], **{k: s["pool"][k][:-1]}))
    for j, h in enumerate(s["hist"]):
        if h["do"] != "damage":
            for k, v in (("threads", 1), ("path", ""), ("from", 0), ("model", 0)):
                if h.get(k) != v:
                    yield dict(s, hist=s["hist"][:j] + [dict(h, **{k: v})] + s["hist"][j + 1 :])
