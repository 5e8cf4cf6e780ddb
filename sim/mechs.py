"""Deterministic family of small hydrogen mechanisms (10-14 species) used as workload models."""

import copy
import os
import random

_base = None


def base():
    global _base
    if _base is None:
        import cantera as ct
        import yaml

        p = os.path.join(os.path.dirname(ct.__file__), "data", "h2o2.yaml")
        with open(p) as f:
            _base = yaml.safe_load(f)
        _base["phases"] = [_base["phases"][0]]
        for k in ("generator", "input-files", "cantera-version", "date", "description"):
            _base.pop(k, None)
        for sp in _base["species"]:
            sp.pop("note", None)
            sp.pop("equation-of-state", None)
            sp.pop("critical-parameters", None)
    return _base


CLONABLE = ["HO2", "H2O2", "OH", "O", "H"]


def spec(rng, small=False):
    """A random mechanism description (JSON-able)."""
    s = {"seed": rng.randrange(1 << 16)}
    n = rng.choice([0, 0, 1, 2] if small else [0, 1, 2, 3])
    s["clones"] = [
        [rng.choice(CLONABLE[:3] if small else CLONABLE), round(10 ** rng.uniform(-3, -0.2), 4)]
        for _ in range(n)
    ]
    s["scale"] = rng.choice([0.0, 0.1, 0.3])
    s["shuffle"] = rng.random() < 0.5
    s["inert"] = rng.choice([0, 0, 1, 2])
    s["phase"] = rng.choice(["", "", "gas"])
    s["drop_ar"] = rng.random() < 0.3
    if rng.random() < 0.2:
        # the requested phase is not the first one of the file
        s["phase"] = "gas"
        s["decoy"] = True
    s["file"] = rng.choice(["mech.yaml"] * 6 + ["models/mech.yaml", "my mech.yml"])
    return s


def _rename(eq, old, new):
    out = []
    for tok in eq.split(" "):
        out.append(new if tok == old else tok)
    return " ".join(out)


def text(s):
    """YAML text of the mechanism described by ``s``."""
    import yaml

    r = random.Random(s["seed"])
    d = copy.deepcopy(base())
    sp = {x["name"]: x for x in d["species"]}
    rx = d["reactions"]
    if s.get("drop_ar"):
        sp.pop("AR")
        keep = []
        for x in rx:
            if " AR" in x["equation"]:
                continue
            x.get("efficiencies", {}).pop("AR", None)
            keep.append(x)
        rx = keep
    if s.get("scale"):
        for x in rx:
            for k in ("rate-constant", "low-P-rate-constant", "high-P-rate-constant"):
                if k in x:
                    x[k]["A"] = float(x[k]["A"]) * 10 ** r.uniform(-s["scale"], s["scale"])
    used = {}
    extra = []
    for old, factor in s.get("clones", []):
        used[old] = used.get(old, 0) + 1
        new = f"{old}{chr(ord('X') + used[old] - 1)}"
        c = copy.deepcopy(sp[old])
        c["name"] = new
        sp[new] = c
        for x in rx:
            toks = x["equation"].split(" ")
            if toks.count(old) != 1 or "(+M)" in toks:
                continue
            y = copy.deepcopy(x)
            y["equation"] = _rename(x["equation"], old, new)
            y["rate-constant"]["A"] = float(y["rate-constant"]["A"]) * factor
            extra.append(y)
    rx = rx + extra
    for i in range(s.get("inert", 0)):
        c = copy.deepcopy(sp["N2"])
        c["name"] = f"INERT{i}"
        sp[c["name"]] = c
    names = list(sp)
    if s.get("shuffle"):
        r.shuffle(names)
    d["reactions"] = rx
    d["species"] = [sp[n] for n in names]
    ph = d["phases"][0]
    ph["species"] = names
    ph["kinetics"] = "gas"
    if s.get("phase"):
        ph["name"] = s["phase"]
    if s.get("decoy"):
        other = copy.deepcopy(ph)
        other["name"] = "other"
        other["species"] = [n for n in names if n not in ("HO2", "H2O2")]
        other["reactions"] = "declared-species"
        other["skip-undeclared-third-bodies"] = True
        d["phases"].insert(0, other)
    for x in d["species"] + rx:
        _floats(x)
    return yaml.safe_dump(d, sort_keys=False, default_flow_style=None, width=10000)


def _floats(x):
    for k, v in list(x.items()):
        if isinstance(v, dict):
            _floats(v)
        elif isinstance(v, str):
            try:
                x[k] = float(v)
            except ValueError:
                pass


def names(s):
    import yaml

    return yaml.safe_load(text(s))["phases"][-1]["species"]
