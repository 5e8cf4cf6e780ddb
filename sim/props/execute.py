"""Not a property: performs one life as described, for property modules that need another interpreter."""

RULE = ""
BUDGET = {"quick": {"runs": 1}}


def run(s, ctx):
    return {"sample": perform(s, ctx)}


def perform(s, ctx):
    d = ctx.disk()
    for n, v in s["files"].items():
        d.put(n, v)
    for n in s.get("dirs", []):
        d.mkdir(n)
    L = ctx.live(d, s["ops"], s["cfg"], "variant")
    out = {}
    for n, v in d.snapshot().items():
        t = v.decode("latin-1")
        out[n] = "\n".join(x for x in t.splitlines() if not x.startswith("date:")) if n.endswith((".yaml", ".inp")) else t
    return {"end": L.end, "results": L.results, "files": out, "event": (L.events or [""])[-1]}
