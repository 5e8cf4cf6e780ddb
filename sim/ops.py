"""Operations a simulated pyMARS process can perform, all through public entry points."""

import os
import sys


def case_args(c):
    kw = {}
    if c.get("phi"):
        kw.update(equivalence_ratio=c["phi"], fuel=dict(c["fuel"]), oxidizer=dict(c["ox"]))
    else:
        kw.update(reactants=dict(c["reactants"]), composition_type=c.get("ctype", "mole"))
    return kw


SHARED = {}      # argument objects used by several operations of one process: key -> object
PRISTINE = {}    # what they looked like when they were made
RETURNED = []    # what operations returned (kept like a caller keeps it), with its summary


def lst(op, key, default=()):
    """A list argument: a fresh copy, or the very object an earlier operation was given."""
    if op.get("share"):
        # the same object for the same contents
        k = f"{op['share']}/{key}/{op.get(key)}"
        if k not in SHARED:
            SHARED[k] = list(op.get(key) or default)
            PRISTINE[k] = repr(SHARED[k])
        return SHARED[k]
    return list(op.get(key) or default)


def build_cases(op):
    if op.get("share"):
        out = []
        for n, v in zip(("ign", "psr", "flame"), _build_cases(op)):
            k = f"{op['share']}/{n}/{op.get(n)}"
            if k not in SHARED:
                SHARED[k] = v
                PRISTINE[k] = repr(v)
            out.append(SHARED[k])
        return tuple(out)
    return _build_cases(op)


def _build_cases(op):
    from pymars import sampling as s

    ign = []
    for c in op.get("ign", []):
        kw = case_args(c)
        if c.get("end_time"):
            kw["end_time"] = c["end_time"]
        if c.get("max_steps"):
            kw["max_steps"] = c["max_steps"]
        ign.append(s.InputIgnition(c["kind"], c["T"], c["P"], **kw))
    psr = [s.InputPSR(c["T"], c["P"], **case_args(c)) for c in op.get("psr", [])]
    fl = [
        s.InputLaminarFlame(c["T"], c["P"], width=c.get("width", 0.02), **case_args(c))
        for c in op.get("flame", [])
    ]
    return ign, psr, fl


def common(op):
    kw = {"num_threads": op.get("threads", 1)}
    if op.get("phase"):
        kw["phase_name"] = op["phase"]
    if op.get("path"):
        kw["path"] = op["path"]
    if op.get("mfs") is not None:
        kw["min_flame_speed"] = op["mfs"]
    return kw


def floats(a):
    import numpy as np

    return [float(x) for x in np.asarray(a, dtype=float).ravel()]


def strip_date(text):
    return "\n".join(l for l in text.splitlines() if not l.startswith("date:"))


def model_info(sol):
    return {
        "species": list(sol.species_names),
        "reactions": [r.equation for r in sol.reactions()],
        "yaml": strip_date(sol.write_yaml()),
    }


def reduced(rm):
    out = summary(rm)
    if len(RETURNED) < 8:
        RETURNED.append((rm, out))
    return out


def summary(rm):
    return {
        "filename": str(rm.filename),
        "error": float(rm.error),
        "limbo": [str(s) for s in rm.limbo_species],
        "model": model_info(rm.model),
    }


def run(op):
    k = op["op"]
    return globals()["op_" + k](op)


def op_recheck(op):
    """What earlier operations of this process did to their arguments, results and process."""
    import signal

    out = {"args": {}, "results": []}
    for k, v in SHARED.items():
        if repr(v) != PRISTINE[k]:
            out["args"][k] = [PRISTINE[k], repr(v)]
    for i, (rm, was) in enumerate(RETURNED):
        now = summary(rm)
        if now != was:
            out["results"].append([i, sorted(k for k in was if was[k] != now[k])])
    um = os.umask(0)
    os.umask(um)
    out["process"] = {"cwd": os.path.basename(os.getcwd()), "umask": um, "argv": sys.argv[1:],
                      "sigint": signal.getsignal(signal.SIGINT) is signal.default_int_handler,
                      "stdout": sys.stdout is sys.__stdout__, "stderr": sys.stderr is sys.__stderr__}
    return out


def op_sample(op):
    from pymars import sampling

    ign, psr, fl = build_cases(op)
    m, d = sampling.sample(
        op["model"], ign, psr_conditions=psr, flame_conditions=fl, **common(op)
    )
    return {"metrics": floats(m), "shape": list(d.shape), "data": floats(d)}


def op_metrics(op):
    from pymars import sampling

    ign, psr, fl = build_cases(op)
    m = sampling.sample_metrics(
        op["model"], ign, psr_conditions=psr, flame_conditions=fl,
        reuse_saved=op.get("reuse", False), **common(op),
    )
    return {"metrics": floats(m)}


def op_read_metrics(op):
    from pymars import sampling

    ign, psr, fl = build_cases(op)
    return {"metrics": floats(sampling.read_metrics(ign, psr, fl))}


def op_graph(op):
    """run_drg / run_drgep / run_pfa."""
    import importlib

    m = op["method"]
    mod = importlib.import_module("pymars." + m.lower())
    fn = getattr(mod, "run_" + m.lower())
    ign, psr, fl = build_cases(op)
    kw = common(op)
    if op.get("upper"):
        kw["threshold_upper"] = op["upper"]
    return reduced(
        fn(op["model"], ign, psr, fl, op["limit"], lst(op, "targets"), lst(op, "safe"), **kw)
    )


def op_sa(op):
    from pymars import sensitivity_analysis as sa

    ign, psr, fl = build_cases(op)
    kw = common(op)
    if "limbo" in op:
        kw["species_limbo"] = lst(op, "limbo")
    return reduced(
        sa.run_sa(
            op["model"], op.get("start_error", 0.0), ign, psr, fl, op["limit"],
            lst(op, "safe"), algorithm_type=op.get("algo", "greedy"), **kw,
        )
    )


def op_main(op):
    from pymars import pymars as pm

    ign, psr, fl = build_cases(op)
    kw = common(op)
    if op.get("sa"):
        kw.update(run_sensitivity_analysis=True, sensitivity_type=op.get("algo", "greedy"))
    if op.get("upper"):
        kw["upper_threshold"] = op["upper"]
    args = {"psr_conditions": psr, "flame_conditions": fl, "target_species": lst(op, "targets"),
            "safe_species": lst(op, "safe")}
    if op.get("omit"):
        # rely on the defaults
        args = {k: v for k, v in args.items() if v}
    return reduced(
        pm.main(op["model"], op["limit"], ign, method=op.get("method"), **args, **kw)
    )


def op_cli(op):
    """The command line; the result is what it leaves on disk, and what ``main`` returned to it."""
    from pymars import pymars as pm

    argv = list(op["argv"])
    old, main, got = sys.argv, pm.main, []

    def recorder(*a, **k):
        r = main(*a, **k)
        got.append(r)
        return r

    sys.argv = ["pymars"] + argv
    pm.main = recorder
    try:
        pm.pymars(argv)
    finally:
        sys.argv, pm.main = old, main
    return {"result": reduced(got[-1]) if got and got[-1] is not None else None}


def op_dict(op):
    """parse_inputs on a dictionary of the caller's, then main with what it returned."""
    import yaml
    from pymars import pymars as pm

    d = yaml.safe_load(op["input"])
    d["model"] = op["model"]
    if op.get("share"):
        if "retained-species" in d:
            d["retained-species"] = lst(dict(op, safe=d["retained-species"]), "safe")
        k = f"{op['share']}/input dictionary/{d}"
        d = SHARED.setdefault(k, d)
        PRISTINE.setdefault(k, repr(d))
    i = pm.parse_inputs(d)
    return reduced(
        pm.main(
            i.model, i.error, i.ignition_conditions, i.psr_conditions, i.flame_conditions, method=i.method,
            target_species=i.target_species, safe_species=i.safe_species, phase_name=i.phase_name,
            run_sensitivity_analysis=i.sensitivity_analysis, upper_threshold=i.upper_threshold,
            sensitivity_type=i.sensitivity_type, path=op.get("path", ""), num_threads=op.get("threads", 1),
            min_flame_speed=i.min_flame_speed,
        )
    )


def op_write(op):
    import cantera as ct
    from pymars import soln2yaml

    gas = ct.Solution(op["model"], op.get("phase", ""))
    kw = {}
    if op.get("path"):
        kw["path"] = op["path"]
    return {"filename": soln2yaml.write(gas, op.get("out", ""), **kw), "model": model_info(gas)}


def op_write_ck(op):
    import cantera as ct
    from pymars import soln2ck

    gas = ct.Solution(op["model"], op.get("phase", ""))
    return {"files": soln2ck.write(gas, op.get("out", ""), op.get("path", ""))}


def op_convert(op):
    from pymars import tools

    r = tools.convert(op["model"], path=op.get("path", ""))
    return {"files": list(r) if isinstance(r, (list, tuple)) else [r]}


def op_psr(op):
    import cantera as ct
    from pymars.psr_solver import trace_extinction_curve

    gas = ct.Solution(op["model"], op.get("phase", ""))
    c = op["psr"][0]
    set_state(gas, c)
    r = trace_extinction_curve(gas, stop_at_extinction=op.get("stop", True), **op.get("kw", {}))
    return {
        "branch": [[float(x) for x in row] for row in r["branch"]],
        "points": {
            k: [float(v[0]), float(v[1]), [float(y) for y in v[2]]]
            for k, v in r["points"].items()
        },
    }


def set_state(gas, c):
    import cantera as ct

    gas.TP = c["T"], c["P"] * ct.one_atm
    if c.get("phi"):
        gas.set_equivalence_ratio(c["phi"], dict(c["fuel"]), dict(c["ox"]))
    elif c.get("ctype", "mole") == "mole":
        gas.TPX = c["T"], c["P"] * ct.one_atm, dict(c["reactants"])
    else:
        gas.TPY = c["T"], c["P"] * ct.one_atm, dict(c["reactants"])
    return gas


def op_error(op):
    import numpy as np
    from pymars import sampling

    return float(sampling.calculate_error(np.array(op["base"]), np.array(op["test"])))
