from gens.base import *

EXPRS = ("u", "v", "x", "u + v", "u*v", "2*u", "v - 1", "i", "j", "i + 1")


def gen(g):
    """A histogram that may have several axes of one expression, of different types or with different parameters."""
    axes = []
    pool = g.sample(EXPRS, g.int(1, 3))
    for _ in range(g.int(1, 5)):
        e = g.choice(pool)
        kind = g.choice(("bin", "split", "groupbin", "intbin", "groupby", "profile", "profile", "bin"))
        if kind == "intbin" and not set(fields_in(e)) <= set(("i", "j")):
            kind = "bin"
        if kind == "groupby" and e == "x":
            kind = "groupbin"
        a = getattr(g, "a_" + kind)(e)
        if a not in axes:
            axes.append(a)
    if g.bool(0.4):
        axes.append(g.a_cut(g.choice(("p", "u > 0", "u < v", "i == 1"))))
    defs = {}
    if g.bool(0.3):
        d = g.choice(pool)
        if d in ("u + v", "u*v", "2*u", "v - 1", "i + 1"):
            defs = {"r": d}
    spec = {"axes": axes, "weight": g.weight(0.3), "filter": None}
    if defs:
        spec["defs"] = defs
    names = spec_fields(spec)
    queries = []
    for _ in range(g.int(2, 6)):
        queries.append({"i": g.below(len(axes)), "spell": g.below(4), "mask": g.int(0, 127), "wrong": g.below(8), "kind": g.choice(("bin", "split", "groupbin", "intbin", "groupby", "profile", "cut"))})
    hist = []
    for _ in range(g.int(0, 8)):
        hist.append([g.choice(("attach", "attach", "detach", "has", "get", "getdef", "direct")), g.choice(("a", "b", "c")), g.choice((1, "x", [1, 2], None, {"k": 0}, False))])
    return {"spec": spec, "queries": queries, "history": hist, "data": g.data_for(names, 0, 4, big=False), "att": g.choice((None, {"a": 1}, {"b": [1], "c": None})), "book": g.bool(0.3)}
