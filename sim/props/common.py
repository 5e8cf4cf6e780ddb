"""Pieces shared by the property modules (no Cantera imports at module level)."""

from .. import gen as g, mechs
from ..harness import Skip, Violation


def put_model(ctx, s, disk=None, name=None):
    d = disk or ctx.disk()
    d.put(name or s["mech"].get("file", "mech.yaml"), mechs.text(s["mech"]))
    if s.get("path"):
        d.mkdir(s["path"])
    return d


def base_op(s, kind, **kw):
    o = {
        "op": kind, "model": s["mech"].get("file", "mech.yaml"), "phase": s["mech"].get("phase", ""),
        "ign": s.get("ign", []), "psr": s.get("psr", []), "flame": s.get("flame", []),
        "threads": s.get("threads", 1), "path": s.get("path", ""), "mfs": s.get("mfs"),
    }
    o.update(kw)
    return o


def reduce_op(s, **kw):
    """The reduction described by s["red"] as an operation."""
    r = s["red"]
    how = r.get("how", "main")
    if how == "cli":
        o = base_op(s, "cli", argv=cli_argv(s))
    elif how == "graph":
        o = base_op(s, "graph", method=r["method"], limit=r["limit"], targets=r["targets"], safe=r["safe"],
                    upper=r.get("upper"))
    elif how == "sa":
        o = base_op(s, "sa", limit=r["limit"], safe=r["targets"] + [x for x in r["safe"] if x not in r["targets"]],
                    algo=r.get("algo", "greedy"), start_error=r.get("start_error", 0.0))
        if r.get("limbo"):
            o["limbo"] = r["limbo"]
    else:
        o = base_op(s, "main", method=r.get("method"), limit=r["limit"], targets=r["targets"], safe=r["safe"],
                    upper=r.get("upper"), sa=r.get("sa", False), algo=r.get("algo", "greedy"))
    o.update(kw)
    return o


def cli_argv(s, name="input.yaml"):
    a = ["-i", name]
    if s.get("path"):
        a += ["--path", s["path"]]
    if s.get("threads", 1) != 1:
        a += ["--num_threads"] + ([str(s["threads"])] if s["threads"] else [])
    return a


def cli_input(s, model=None):
    """Contents of the input file of the reduction in s["red"]."""
    import json

    r = s["red"]

    def cond(c):
        o = {"temperature": c["T"], "pressure": c["P"]}
        if c.get("phi"):
            o.update({"equivalence-ratio": c["phi"], "fuel": c["fuel"], "oxidizer": c["ox"]})
        else:
            o.update({"reactants": c["reactants"], "composition-type": c.get("ctype", "mole")})
        return o

    d = {"model": model or s["mech"].get("file", "mech.yaml"), "error": r["limit"]}
    if r.get("method"):
        d["method"] = r["method"]
        d["targets"] = r["targets"]
    elif r.get("targets"):
        d["targets"] = r["targets"]
    safe = [x for x in r["safe"] if x not in r.get("auto", [])]
    if safe:
        d["retained-species"] = safe
    if r.get("sa"):
        d["sensitivity-analysis"] = True
        d["sensitivity-type"] = r.get("algo", "greedy")
    if r.get("upper"):
        d["upper-threshold"] = r["upper"]
    if s["mech"].get("phase"):
        d["phase-name"] = s["mech"]["phase"]
    if s.get("mfs") is not None:
        d["min-flame-speed"] = s["mfs"]
    if s.get("ign"):
        d["autoignition-conditions"] = []
        for c in s["ign"]:
            o = dict(cond(c), kind=c["kind"])
            if c.get("end_time"):
                o["end-time"] = c["end_time"]
            if c.get("max_steps"):
                o["max-steps"] = c["max_steps"]
            d["autoignition-conditions"].append(o)
    if s.get("psr"):
        d["psr-conditions"] = [cond(c) for c in s["psr"]]
    if s.get("flame"):
        d["laminar-flame-conditions"] = [dict(cond(c), width=c.get("width", 0.02)) for c in s["flame"]]
    import yaml

    return yaml.safe_dump(json.loads(json.dumps(d)), sort_keys=False)


def mixture_species(s):
    out = []
    for k in ("ign", "psr", "flame"):
        for c in s.get(k, []):
            for d in (c.get("fuel") or {}, c.get("ox") or {}, c.get("reactants") or {}):
                for sp in d:
                    if sp not in out:
                        out.append(sp)
    return out


def reduction(rng, s, methods=("DRG", "DRGEP", "DRGEP", "PFA"), sa=0.35, how=("main", "graph")):
    """A reduction request for the scenario's model and cases."""
    names = mechs.names(s["mech"])
    mix = mixture_species(s)
    r = {"limit": rng.choice([0.5, 2.0, 5.0, 10.0, 30.0, 60.0])}
    r["targets"] = rng.choice([["H2", "O2"], ["H2"], ["H2O"], ["H2", "O2", "OH"], ["OH", "H2"]])
    safe = [x for x in mix if x not in r["targets"]]
    if rng.random() < 0.3:
        for x in rng.sample(names, rng.choice([1, 2])):
            if x not in safe and x not in r["targets"]:
                safe.append(x)
    r["safe"] = safe
    k = rng.random()
    r["method"] = rng.choice(methods) if methods else None
    if methods and k < sa:
        r["sa"] = True
        r["how"] = "main"
    elif not methods or k < sa * 1.4:
        r["method"] = None
        r["sa"] = True
        r["how"] = rng.choice(["main", "sa"])
    else:
        r["how"] = rng.choice(list(how))
    if r.get("sa"):
        r["algo"] = rng.choice(["initial", "greedy"])
        if rng.random() < 0.7:
            r["upper"] = rng.choice([0.05, 0.1, 0.2, 0.4])
    elif rng.random() < 0.25:
        r["upper"] = rng.choice([0.1, 0.4])
    return r


def same_result(a, b):
    """None if two successful operation values are equal, else what differs."""
    if a == b:
        return None
    out = []
    for k in a:
        if k not in b or a[k] != b[k]:
            if k == "model":
                for j in a[k]:
                    if a[k][j] != b[k][j]:
                        out.append(f"model.{j}")
            else:
                out.append(f"{k} {str(a[k])[:80]} vs {str(b.get(k))[:80]}")
    return ", ".join(out)


def valid_states(data, width, what):
    """Every sampled state is a thermodynamic state: positive T and P, mass fractions summing to one."""
    for a in range(0, len(data), width):
        T, P, Y = data[a], data[a + 1], data[a + 2 : a + width]
        if not (T > 0.0 and P > 0.0 and abs(sum(Y) - 1.0) < 1e-3):
            raise Violation("invalid-state", f"{what}: sampled state {a // width} has T={T} P={P} sum(Y)={sum(Y):.4g}")


def must_finish(L, what):
    if L.end == "hang":
        raise Violation("hang", f"{what}: does not end ({(L.events or ['step budget'])[-1]})")
    if L.end not in ("exit", "killed"):
        raise Violation("abnormal-end", f"{what}: ended with {L.end}")


def is_error(L, i=-1):
    if L.end != "exit" or not L.results or "exc" not in L.results[i]:
        return False
    r = L.results[i]
    return not (r["exc"] == "SystemExit" and r.get("code") in (None, 0))


def shrink_common(s):
    yield from g.shrink_cases(s)
    if s.get("path"):
        yield dict(s, path="")
    if s.get("threads", 1) not in (1, 2):
        yield dict(s, threads=2)
    if s.get("threads", 1) != 1:
        yield dict(s, threads=1)
    if s.get("start_method", "fork") != "fork":
        yield dict(s, start_method="fork")
    if s.get("sched"):
        if s["sched"].get("policy") != "fifo":
            yield dict(s, sched=dict(s["sched"], policy="fifo"))
        if s["sched"].get("quantum") != 1000:
            yield dict(s, sched=dict(s["sched"], quantum=1000))
    m = s.get("mech")
    if m:
        if m.get("clones"):
            yield dict(s, mech=dict(m, clones=[]))
        if m.get("inert"):
            yield dict(s, mech=dict(m, inert=0))
        if m.get("shuffle"):
            yield dict(s, mech=dict(m, shuffle=False))
        if m.get("scale"):
            yield dict(s, mech=dict(m, scale=0.0))


# ---- interruptions: process death, signals and disk trouble at a chosen point of a run --------
M_SPACE = 1 | 2 | 32          # operations that can run out of space: create, write, mkdir


def interruption(rng, s, kinds=None):
    """One thing that goes wrong during a run, at a point relative to the length of that run."""
    how = rng.choice(kinds or ["disk"] * 6 + ["line"] * 2 + ["step"] * 2)
    z = rng.random()
    # the end of a run is where results are saved
    at = rng.randrange(1000) if z < 0.5 else 999 - int(min(998, rng.expovariate(1 / 60.0)))
    f = {"how": how, "at": at}
    if how == "disk":
        f["action"] = rng.choice(["crash", "crash", "torn", "torn", "err", "err", "err", "short", "sigint"])
        f["frac"] = rng.choice([0, 1, 100, 500, 900, 999])
        if f["action"] == "err":
            f["errno"] = rng.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT"])
            f["count"] = rng.choice([1, 1, 3, -1])
            f["mask"] = M_SPACE if f["errno"] != "EIO" else 0
        elif f["action"] == "short":
            f["count"] = rng.choice([1, 5, 50])
        f["proc"] = "workers" if s.get("threads", 1) != 1 and rng.random() < 0.2 else "main"
    elif how == "line":
        f["exc"] = rng.choice(["interrupt", "kill", "memory"])
    else:
        f["exc"] = rng.choice(["kill", "kill", "interrupt", "cantera", "memory"])
        kinds = [k for k in ("ign", "psr", "flame") if s.get(k)]
        f["kind"] = rng.choice(kinds)
        f["case"] = rng.randrange(len(s[f["kind"]]))
        f["n"] = {"ign": rng.randint(1, 300), "psr": rng.randint(1, 900), "flame": rng.randint(1, 5)}[f["kind"]]
    return f


def interrupted_cfg(s, f, ref, cfg=None):
    """Life configuration of interruption ``f``; ``ref`` is an undisturbed life (for lengths)."""
    cfg = dict(cfg or {}, **s.get("env", {}))
    cfg["sched"] = s.get("sched")
    cfg["start_method"] = s.get("start_method", "fork")
    if f["how"] == "disk":
        if f.get("proc") == "workers":
            at = f["at"] // 100
        else:
            at = ref["ops"] * f["at"] // 1000
            if f.get("focus"):
                # one of the operations on files of this kind
                ks = [k for k, l in enumerate(ref["log"]) if any(x in l for x in FOCUS[f["focus"]])]
                if ks:
                    at = ks[len(ks) * f["at"] // 1000]
        cfg["disk"] = [dict(action=f["action"], at=at, frac=f.get("frac", 500), errno=f.get("errno"),
                            count=f.get("count", 1), mask=f.get("mask", 0), proc=f.get("proc", "main"))]
    elif f["how"] == "line":
        cfg["line_fault"] = {"at": max(1, ref["lines"] * f["at"] // 1000), "exc": f["exc"]}
    else:
        cs = s.get(f["kind"]) or []
        if f["case"] < len(cs):
            cfg["engine"] = [{"kind": f["kind"], "t0": cs[f["case"]]["T"], "at": f["n"], "exc": f["exc"]}]
    return cfg


FOCUS = {"samples": (".dat", ".txt"), "models": (".yaml", ".tmp")}


def lengths(L):
    return {"log": L.main_log.splitlines(), "ops": L.main_ops, "lines": L.counters.get("lines", 0), "steps": L.counters.get("nsteps", 0)}


COUNT_LINES = {"line_fault": {"at": 1 << 60, "exc": "kill"}}


def describe_interruption(f):
    if f["how"] == "disk":
        on = f" on {f['focus']}" if f.get("focus") else ""
        return f"{f['action']} {f.get('errno') or ''} at {f['at']}/1000 of the disk operations{on} ({f.get('proc', 'main')})"
    if f["how"] == "line":
        return f"{f['exc']} at {f['at']}/1000 of the executed lines"
    return f"{f['exc']} at step {f['n']} of {f['kind']} case {f['case']}"


def shrink_interruption(f):
    if f["how"] == "disk":
        if f.get("count", 1) != 1:
            yield dict(f, count=1)
        if f["action"] in ("torn", "short", "err"):
            yield dict(f, action="crash", count=1, mask=0)
        if f.get("proc") == "workers":
            yield dict(f, proc="main")
    if f.get("exc") not in (None, "kill"):
        yield dict(f, exc="kill")
