"""Reference runs of whole reductions: the documented algorithms over independently computed numbers."""

from .. import mechs
from ..harness import Ambiguous
from . import common as c

TOL = 0.05      # percentage points: integrator and round-trip noise on an error is below 0.02


class TooMany(Exception):
    pass


class Reference:
    """Expected outcome of the reduction of scenario ``s`` under sticky candidate faults."""

    def __init__(self, s, ctx, faults=()):
        from .. import oracle

        self.oracle = oracle
        resolve(s)
        self.s, self.ctx, self.faults = s, ctx, list(faults)
        self.text = mechs.text(s["mech"])
        self.phase = s["mech"].get("phase", "")
        self.names = mechs.names(s["mech"])
        self.op = c.base_op(s, "metrics")
        self.base = self.oracle.metrics(self.text, self.op, ctx.scratch)
        self.cache = {}

    def valid(self):
        return not any(v == 0.0 for v in self.base)

    def model(self, keep):
        return self.oracle.trimmed(self.text, self.phase, keep)

    def error(self, keep):
        keep = tuple(n for n in self.names if n in set(keep))
        if keep not in self.cache:
            m = self.oracle.metrics(self.model(keep), self.op, self.ctx.scratch, self.faults)
            self.cache[keep] = self.oracle.error(self.base, m)
        return self.cache[keep]

    def states(self):
        """Sampled states of the starting model, from an undisturbed sampling."""
        L = self.ctx.live(c.put_model(self.ctx, self.s), [c.base_op(self.s, "sample", threads=1)], {}, "reference states")
        if not (L.end == "exit" and L.ok()):
            return None
        v = L.value()
        w = v["shape"][1]
        c.valid_states(v["data"], w, "sampling the starting model")
        return [v["data"][a : a + w] for a in range(0, len(v["data"]), w)]

    def coefficients(self, r):
        """Importance of each species in the sampled states; None if the model cannot be sampled."""
        if not hasattr(self, "imp"):
            st = self.states()
            self.imp = None
            if st is not None:
                self.imp = self.oracle.importance(r["method"], self.text, self.phase, st, r["targets"])
        return self.imp

    def ladder(self, r):
        if self.coefficients(r) is None:
            return None
        return self.oracle.ladder(
            r["method"], self.imp, set(r["targets"]) | set(r["safe"]), r["targets"], self.names, r["limit"],
            self.error, etie=TOL,
        )

    def limbo(self, r, keep):
        """Candidates DRGEP hands to sensitivity analysis."""
        if not r.get("upper"):
            return []
        out = []
        for sp in keep:
            if abs(self.imp[sp] - r["upper"]) <= 1e-9 * r["upper"]:
                raise Ambiguous(f"coefficient of {sp} ties with the upper threshold")
            if self.imp[sp] < r["upper"] and sp not in r["targets"] and sp not in r["safe"]:
                out.append(sp)
        return out

    def sensitivity(self, start, start_error, cands, limit, algo):
        """All outcomes the documented removal order allows: set of (kept species, error).

        More than one only when numbers tie within the noise of the integrator.
        """
        out = {}
        count = [0]

        def errors(cur, cand):
            return {x: self.error([n for n in cur if n != x]) for x in cand}

        def go(cur, err, cand, errs):
            count[0] += 1
            if count[0] > 200:
                raise TooMany()
            if not cand:
                out[cur] = err
                return
            d = {x: abs(errs[x] - err) for x in cand}
            lo = min(d.values())
            picks = [x for x in cand if d[x] <= lo + 2 * TOL]
            exact = [x for x in cand if d[x] == lo]
            if len(exact) > 1 and len(exact) == len(picks) and all(errs[x] == 100.0 for x in exact):
                # failing candidates are exactly equal; with any of them the search ends alike
                # unless a 100 percent error is acceptable
                if limit < 100.0:
                    picks = exact[:1]
            for x in picks:
                new = tuple(n for n in cur if n != x)
                e = self.error(new)
                exact100 = e == 100.0
                if e > limit or (not exact100 and abs(e - limit) <= TOL):
                    out[cur] = err
                if e > limit + (0 if exact100 else TOL):
                    continue
                rest = [y for y in cand if y != x]
                if algo == "greedy":
                    es = errors(new, rest)
                    low = min(es.values()) if rest else None
                    if rest and (low > limit or (low != 100.0 and abs(low - limit) <= TOL)):
                        out[new] = e
                        if low > limit + TOL:
                            continue
                    go(new, e, rest, es)
                else:
                    go(new, e, rest, errs)

        start = tuple(start)
        go(start, start_error, [x for x in cands], errors(start, cands))
        return out


def candidate_faults(rng, s, names, keep, p=0.5):
    """Sticky failures of candidate models, never of the starting model."""
    out = []
    if rng.random() > p:
        return out
    rest = [n for n in names if n not in keep]
    cases = [(k, j) for k in ("ign", "psr", "flame") for j in range(len(s[k]))]
    for _ in range(rng.choice([1, 1, 2, 3])):
        k, j = rng.choice(cases)
        z = rng.random()
        n = len(names)
        if z < 0.25 or not rest:
            when = {"n_equal": n - rng.randint(1, 6)}
        elif z < 0.5:
            when = {"n_below": n - rng.randint(0, 6)}
        elif z < 0.85:
            when = {"lacks": [rng.choice(rest)]}
        else:
            when = {"lacks_all": rng.sample(rest, min(2, len(rest)))}
        exc = "speed" + rng.choice(["-0.4", "0.0", "0.01"]) if k == "flame" and rng.random() < 0.3 else "cantera"
        if k == "flame" and rng.random() < 0.3:
            exc = f"scale{rng.choice([0.5, 0.7, 0.85, 0.9, 0.97, 1.1])}"
        out.append({"kind": k, "case": j, "when": when, "exc": exc,
                    "at": {"ign": rng.choice([1, 1, 5, 30, 60]), "psr": rng.choice([1, 20]), "flame": rng.randint(1, 5)}[k]})
    return out


def flame_landscape(rng, s, p=0.6, flat=0.5, ign=0.0):
    """Turn a scenario into one over flames alone, whose speeds depend on the species left in a prescribed way.

    Such candidates are cheap, so errors of many sizes and signs can be tried.  In a flat landscape only the
    prescribed factors matter, so that removals can leave the error exactly as it was.  With ``ign``, an ignition
    case (whose states count as well, and whose delay stays the same for most candidates) comes along.
    """
    from .. import gen as g

    s["ign"], s["psr"], s["flame"] = [], [], g.flame_cases(rng, rng.choice([1, 1, 2]))
    s["flat"] = rng.random() < flat
    if s["flat"]:
        p = rng.choice([0.7, 0.85, 1.0])
    if rng.random() < ign:
        s["ign"] = g.ign_cases(rng, 1, simple=True)
        s["ign"][0].update(T=rng.choice([1100.0, 1200.0, 1400.0]), P=rng.choice([1.0, 20.0, 60.0]), end_time=rng.choice([0.005, 0.05]))
        if rng.random() < 0.6:
            # decomposing hydrogen peroxide: other chemistry than that of the flames
            for k in ("phi", "fuel", "ox"):
                s["ign"][0].pop(k, None)
            s["ign"][0].update(reactants={"H2O2": rng.choice([0.3, 0.6]), "N2": 0.5}, ctype="mole")
    s["mfs"] = None
    s.pop("mfs_rel", None)
    r = s["red"]
    mix = c.mixture_species(s)
    r["safe"] = [x for x in mix if x not in r["targets"]]
    names = mechs.names(s["mech"])
    rest = [n for n in names if n not in mix and n not in r["targets"]]
    rng.shuffle(rest)
    out = []
    for _ in range(rng.choice([1, 2, 4, 6] if s["flat"] else [0, 1, 2, 4])):
        if len(rest) > 2:
            out.append({"lacks_all": rng.sample(rest, rng.choice([2, 2, 3]))})
    out += [{"lacks": [x]} for x in rest if rng.random() < p]
    s["faults"] = [
        {"kind": "flame", "case": rng.randrange(len(s["flame"])), "when": w, "at": 1,
         "exc": "cantera" if rng.random() < 0.1 else f"scale{round(rng.choice([rng.uniform(0.5, 1.4), rng.uniform(0.85, 1.15)]), 3)}"}
        for w in out
    ]


def fault_plan(s):
    resolve(s)
    out = []
    for f in s.get("faults", []):
        if f["case"] < len(s[f["kind"]]):
            out.append({"kind": f["kind"], "t0": s[f["kind"]][f["case"]]["T"], "at": f["at"], "exc": f["exc"], "when": f["when"]})
    return out


def scenario(rng, methods, sa, how=("main", "graph"), psr=0.2, flame=0.35, p_fault=0.5, mech=None):
    """A reduction over one to three cases with sticky candidate faults."""
    from .. import gen as g

    s = {"mech": mech or mechs.spec(rng, small=True)}
    s["ign"] = g.ign_cases(rng, rng.choice([1, 1, 2]), simple=True)
    for x in s["ign"]:
        # candidates that do not ignite cost the maximum number of steps
        if rng.random() < 0.8:
            x["max_steps"] = rng.choice([800, 1000, 1500])
    s["psr"] = g.psr_cases(rng, 1) if rng.random() < psr else []
    s["flame"] = g.flame_cases(rng, rng.choice([1, 2])) if rng.random() < flame else []
    if s["flame"] and rng.random() < 0.3:
        s["ign"] = []
    s["threads"] = rng.choice([1, 1, 1, 2])
    s["path"] = rng.choice(["", "", "out"])
    s["sched"] = g.sched(rng)
    s["env"] = g.env(rng)
    s["start_method"] = "fork"
    s["red"] = c.reduction(rng, s, methods=methods, sa=sa, how=how)
    names = mechs.names(s["mech"])
    s["faults"] = candidate_faults(rng, s, names, c.mixture_species(s), p_fault)
    return s


def rich(rng, p_fault=0.5, methods=("DRG", "DRGEP", "DRGEP", "PFA"), sa=0.35, how=("main", "graph", "cli"), limits=None):
    """A whole reduction over mixed phenomena, any way of starting it, with sticky candidate faults."""
    from .. import gen as g

    s = {"mech": mechs.spec(rng, small=True)}
    z = rng.random()
    s["ign"] = g.ign_cases(rng, rng.choice([1, 1, 2, 3]), simple=rng.random() < 0.5) if z < 0.85 else []
    s["psr"] = g.psr_cases(rng, rng.choice([1, 1, 2])) if rng.random() < (0.25 if s["ign"] else 0.4) else []
    s["flame"] = g.flame_cases(rng, rng.choice([1, 2])) if rng.random() < 0.4 or not (s["ign"] or s["psr"]) else []
    for x in s["ign"]:
        if not x.get("end_time"):
            x["max_steps"] = rng.choice([800, 1000, 1500])
    s["mfs"] = rng.choice([None, None, 0.02, 0.2]) if s["flame"] else None
    if s["flame"] and s["mfs"] is None and rng.random() < 0.5:
        s["mfs_rel"] = rng.choice([0.6, 0.8, 0.9, 0.95, 0.98])
    s["threads"] = rng.choice([1, 1, 1, 2, 3])
    s["path"] = rng.choice(["", "", "out"])
    s["sched"] = g.sched(rng)
    s["env"] = g.env(rng)
    s["start_method"] = rng.choice(["fork", "fork", "fork", "spawn"])
    s["red"] = c.reduction(rng, s, methods=methods, sa=sa, how=how)
    if s["red"].get("sa") and s["red"]["how"] == "main" and "cli" in how and rng.random() < 0.4:
        s["red"]["how"] = "cli"
    if limits:
        s["red"]["limit"] = rng.choice(limits)
    s["faults"] = candidate_faults(rng, s, mechs.names(s["mech"]), c.mixture_species(s), p_fault)
    return s


def resolve(s):
    """Turn speeds given relative to the starting model into numbers."""
    if s.get("flat"):
        from .. import oracle

        t, n = mechs.text(s["mech"]), len(mechs.names(s["mech"]))
        s["faults"] = s["faults"] + [
            {"kind": "flame", "case": j, "when": {"n_below": n}, "at": 1,
             "exc": f"base{oracle.flame_speed(t, s['mech'].get('phase', ''), x, 0.0)!r}"} for j, x in enumerate(s["flame"])
        ]
        s["flat"] = False
    if s.get("mfs_rel") and s.get("flame") and s.get("mfs") is None:
        from .. import oracle

        t = mechs.text(s["mech"])
        v = [oracle.flame_speed(t, s["mech"].get("phase", ""), x, 0.0) for x in s["flame"]]
        s["mfs"] = round(min(v) * s["mfs_rel"], 4)


def place(ctx, s, disk=None):
    """Model (and input file) of the scenario on a disk."""
    resolve(s)
    d = c.put_model(ctx, s, disk)
    if s["red"]["how"] == "cli":
        d.put("input.yaml", c.cli_input(s))
    return d


def result(L):
    """What a successful reduction returned; None if a command-line run gave no access to it."""
    v = L.value()
    return v.get("result") if "filename" not in v else v


def unlike(text, want_text, phase):
    """None, or how a model differs from the expected one in species, thermodynamics or reactions."""
    a, b = load(text, phase), load(want_text, "")
    if a is None:
        return "cannot be loaded"
    if list(a.species_names) != list(b.species_names):
        return f"species {[x for x in a.species_names if x not in b.species_names]} extra, {[x for x in b.species_names if x not in a.species_names]} missing (or reordered)"
    ra, rb = a.reactions(), b.reactions()
    ea, eb = [x.equation for x in ra], [x.equation for x in rb]
    if ea != eb:
        return f"{len(ea)} reactions instead of {len(eb)}: extra {[x for x in ea if x not in eb][:3]}, missing {[x for x in eb if x not in ea][:3]} (or reordered)"
    for x, y in zip(ra, rb):
        if not _close(x.input_data, y.input_data):
            return f"reaction {x.equation} has other data"
    for x, y in zip(a.species(), b.species()):
        if not (_close(x.thermo.input_data, y.thermo.input_data) and x.composition == y.composition):
            return f"species {x.name} has other data"
        tx, ty = x.transport, y.transport
        if (tx is None) != (ty is None) or (tx is not None and not _close(tx.input_data, ty.input_data)):
            return f"species {x.name} has other transport data"
    return None


def _close(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(_close(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(_close(a, b) for a, b in zip(x, y))
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return abs(x - y) <= 1e-9 * max(abs(x), abs(y))
    return x == y


def describe(s):
    r = s["red"]
    how = {"cli": "command line", "main": "main()", "graph": "run_" + str(r.get("method")).lower(), "sa": "run_sa"}[r["how"]]
    return (
        f"{how}: {r.get('method')}{' + ' + r.get('algo', '') + ' sensitivity analysis' if r.get('sa') else ''}, "
        f"limit {r['limit']}, upper {r.get('upper')}, targets {r['targets']}, retained {r['safe']}, "
        f"{len(s['ign'])} ignition/{len(s['psr'])} PSR/{len(s['flame'])} flame cases, threads {s['threads']}, "
        f"failures {[(f['kind'], f['case'], f['when']) for f in s.get('faults', [])]}"
    )


def new_models(d, before):
    """Reduced-model files that appeared or changed since ``before`` (a snapshot): name -> bytes."""
    import os

    return {k: v for k, v in d.snapshot().items()
            if os.path.basename(k).startswith("reduced_") and k.endswith(".yaml") and before.get(k) != v}


def load(text, phase):
    """Species, reactions and name of a model file's text; None if Cantera cannot load it."""
    import cantera as ct

    try:
        g = ct.Solution(yaml=text) if not phase else ct.Solution(yaml=text, name=phase)
    except Exception:
        return None
    return g


def life_cfg(s):
    return dict(s["env"], sched=s["sched"], start_method=s.get("start_method", "fork"), engine=fault_plan(s))


def shrink(s):
    fl = s.get("faults", [])
    for j in range(len(fl)):
        yield dict(s, faults=fl[:j] + fl[j + 1 :])
    for k in ("ign", "psr", "flame"):
        if sum(len(s[x]) for x in ("ign", "psr", "flame")) < 2:
            break
        for j in range(len(s[k])):
            f2 = [dict(f, case=f["case"] - (1 if f["kind"] == k and f["case"] > j else 0)) for f in fl
                  if not (f["kind"] == k and f["case"] == j)]
            yield dict(s, **{k: s[k][:j] + s[k][j + 1 :]}, faults=f2)
    for j, f in enumerate(fl):
        if f["at"] != 1:
            yield dict(s, faults=fl[:j] + [dict(f, at=1)] + fl[j + 1 :])
    if len(s["red"]["safe"]) > 0:
        for x in s["red"]["safe"]:
            if x not in c.mixture_species(s):
                yield dict(s, red=dict(s["red"], safe=[y for y in s["red"]["safe"] if y != x]))
    for x in c.shrink_common(s):
        if all(len(x.get(k, [])) == len(s.get(k, [])) for k in ("ign", "psr", "flame")):
            if x.get("mech", s["mech"]).get("clones") != s["mech"].get("clones") or x.get("mech", s["mech"]).get("inert") != s["mech"].get("inert"):
                if fl or s["red"].get("limbo"):
                    continue
            yield x
