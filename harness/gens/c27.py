from gens.base import *

OPS = ("fill", "fill", "fill", "copy", "copyonfill", "json", "pickle", "cleared", "clear", "weight", "filter", "systematic", "project", "project", "drop", "rebinby", "rebin", "select", "select",
       "scale", "rscale", "iscale", "add", "iadd", "attach", "detach")
ATTS = ({"note": "a"}, {"note": [1, 2], "n": 3}, {"k": {"a": 1}}, None)


def gen(g):
    used = []
    axes = g.axes(1, 4, used=used)
    if not axes:
        axes = [g.a_bin("u")]
    spec = {"axes": axes + g.profiles(0, 2), "weight": g.weight(0.35), "filter": g.filter(0.15)}
    spec = apart(with_defs(g, spec, 0.25))
    if g.bool(0.4):
        # definitions that nothing uses (yet)
        spec["defs"] = dict(spec.get("defs") or {}, **g.choice(({"s": 2}, {"s": 0.5}, {"s": "u - 1", "t": 3}, {"s": "v"}, {"s": True})))
    if g.bool(0.7):
        spec["att"] = g.choice(ATTS)
    names = list(spec_fields(spec))
    for f in ("w", "u", "q", "p"):
        if f not in names:
            names.append(f)
    names = [f for f in FIELDS if f in names]
    steps = []
    for _ in range(g.int(2, 9 if not g.big else 16)):
        op = g.choice(OPS)
        s = {"op": op, "a": g.int(0, 15), "b": g.int(0, 255)}
        if op in ("fill", "add", "iadd"):
            s["data"] = g.data_for(names, 0, 6, big=False) if op == "fill" or g.bool(0.85) else None
        steps.append(s)
    return {"spec": spec, "steps": steps, "last": g.data_for(names, 1, 4, big=False), "unseen": g.bool(0.3)}
