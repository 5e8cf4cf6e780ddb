"""Workload generation shared by the property modules (no Cantera imports)."""

OX = [{"O2": 1.0, "N2": 3.76}, {"O2": 1.0, "N2": 3.0}, {"O2": 1.0}]


def mixture(rng):
    m = plain_mixture(rng)
    if rng.random() < 0.2:
        # a species that no other mixture has
        d = m.get("reactants") or m["ox"]
        d[rng.choice(["H2O", "H2O", "H2O2"])] = rng.choice([0.01, 0.05, 0.1])
    return m


def plain_mixture(rng):
    k = rng.random()
    if k < 0.6:
        return {"phi": rng.choice([0.5, 0.7, 1.0, 1.0, 1.5, 2.0]), "fuel": {"H2": 1.0}, "ox": dict(rng.choice(OX))}
    if k < 0.8:
        return {"reactants": {"H2": round(rng.uniform(0.5, 2.5), 3), "O2": 1.0, "N2": round(rng.uniform(1, 5), 3)}, "ctype": "mole"}
    return {"reactants": {"H2": round(rng.uniform(0.02, 0.06), 4), "O2": 0.25, "N2": 0.7}, "ctype": "mass"}


def ign_cases(rng, n, simple=False):
    out = []
    t = rng.choice([1000.0, 1050.0, 1100.0, 1200.0])
    for _ in range(n):
        t += round(rng.uniform(3, 60), 1) if n < 12 else round(rng.uniform(2, 30), 1)
        c = {"kind": rng.choice(["constant volume", "constant pressure"]), "T": round(t, 1),
             "P": rng.choice([1.0, 1.0, 2.0, 5.0, 10.0]), **mixture(rng)}
        if not simple and rng.random() < 0.3:
            c["end_time"] = rng.choice([0.01, 0.02, 0.05])
        out.append(c)
    rng.shuffle(out)
    return out


def psr_cases(rng, n):
    out = []
    t = rng.choice([300.0, 350.0, 400.0, 600.0])
    for _ in range(n):
        t += round(rng.uniform(5, 40), 1)
        out.append({"T": round(t, 1), "P": rng.choice([1.0, 1.0, 2.0, 5.0]), **mixture(rng)})
    rng.shuffle(out)
    return out


def flame_cases(rng, n):
    out = []
    t = rng.choice([290.0, 300.0, 350.0, 500.0])
    for _ in range(n):
        t += round(rng.uniform(3, 40), 1)
        out.append({"T": round(t, 1), "P": rng.choice([1.0, 1.0, 3.0]), **mixture(rng)})
    rng.shuffle(out)
    return out


def sched(rng):
    return {
        "seed": rng.randrange(1 << 30),
        "quantum": rng.choice([1, 7, 40, 150, 1000]),
        "policy": rng.choice(["random", "random", "random", "lifo", "fifo"]),
    }


def env(rng):
    return {
        "entropy": rng.randrange(1, 1 << 30),
        "clock": float(rng.choice([1.0e9, 1.5e9, 1.7e9, 1.9e9])) + rng.randrange(1 << 20),
        "cpu_count": rng.choice([1, 2, 3, 4, 8]),
    }


def drop_each(seq):
    """All sequences with one element (or one half) removed."""
    n = len(seq)
    if n > 3:
        yield seq[: n // 2]
        yield seq[n // 2 :]
    for i in range(n):
        yield seq[:i] + seq[i + 1 :]


def shrink_cases(scn, keys=("ign", "psr", "flame"), minimum=1):
    for k in keys:
        if scn.get(k):
            for s in drop_each(scn[k]):
                total = sum(len(scn.get(j, [])) for j in keys) - len(scn[k]) + len(s)
                if total >= minimum:
                    yield dict(scn, **{k: s})
