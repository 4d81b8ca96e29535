from gens.base import *


def other_axis(g, a):
    """A copy of an axis with something about its binning changed (None if it has nothing to change)."""
    a = dict(a)
    t = a["t"]
    if t in ("groupby", "cut", "profile"):
        return None
    if t == "intbin":
        k = g.below(4)
        if k == 0:
            a["max"] += 1
        elif k == 1:
            a["min"] -= 1
        else:
            a["uo"[k - 2]] = not a["uo"[k - 2]]
    elif t == "groupbin":
        k = g.below(4)
        if k == 0:
            a["w"] = a["w"] * 2
        elif k == 1:
            a["org"] = a["org"] + 0.125
        else:
            a[("N", "cl")[k - 2]] = not a[("N", "cl")[k - 2]]
    else:
        k = g.below(5)
        if k == 4 and t == "bin" and a["n"] > 0:
            a["hi"] = a["hi"] + 1.0
        elif k == 4 and t == "split":
            a["edges"] = a["edges"] + [77.5]
        elif k == 3 and t == "bin" and a["n"] > 0:
            a["n"] += 1
        else:
            f = ("u", "o", "N", "cl")[k % 4]
            a[f] = not a[f]
            if f != "cl" and not (a["u"] or a["o"] or a["N"]):
                a["o" if f != "o" else "u"] = True
    return a


def changed(g, spec):
    """Another specification that differs in one respect, and what that is."""
    s = dict(spec, axes=[dict(a) for a in spec["axes"]])
    axes = s["axes"]
    kind = g.choice(("binning", "binning", "expr", "more", "less", "swap", "profile", "weight", "filter", "defs", "att", "type", "none"))
    i = g.below(len(axes))
    if kind == "binning":
        a = other_axis(g, axes[i])
        if a is None:
            kind = "none"
        else:
            axes[i] = a
    elif kind == "expr":
        t = axes[i]["t"]
        axes[i]["e"] = {"intbin": "k", "groupby": "d + d" if False else "k", "cut": "v > 1.25", "profile": "u*v*v"}.get(t, "v + 0.25")
        if t == "groupbin":
            axes[i]["e"] = "v + 0.25"
    elif kind == "more":
        axes.insert(g.below(len(axes) + 1), g.choice((g.a_bin("u - 0.25"), g.a_cut("v < -1"), g.a_groupby("k"), g.a_intbin("k"))))
    elif kind == "less":
        if len(axes) > 1:
            del axes[i]
        else:
            kind = "none"
    elif kind == "swap":
        j = g.below(len(axes))
        axes[i], axes[j] = axes[j], axes[i]
    elif kind == "profile":
        axes.append(g.a_profile("u*v*v"))
    elif kind == "weight":
        s["weight"] = g.choice([w for w in (None, 2.5, "w*w", "3*w") if w != spec.get("weight") or (w is None) != (spec.get("weight") is None)])
    elif kind == "filter":
        s["filter"] = g.choice([w for w in (None, "u > 1", "v <= 0.75") if w != spec.get("filter")])
    elif kind == "defs":
        s["defs"] = dict(spec.get("defs") or {}, unused=g.choice((1, 2.5, "u")))
    elif kind == "att":
        s["att"] = dict(spec.get("att") or {}, extra=g.choice((1, "a", [1, 2], None)))
    elif kind == "type":
        a = axes[i]
        if a["t"] == "bin" and a["n"] > 0:
            w = (a["hi"] - a["lo"]) / a["n"]
            axes[i] = {"t": "split", "e": a["e"], "edges": [a["lo"] + k * w for k in range(a["n"] + 1)], "u": a["u"], "o": a["o"], "N": a["N"], "cl": a["cl"]}
        elif a["t"] == "groupby":
            axes[i] = {"t": "cut", "e": "p"}
        else:
            kind = "none"
    return s, kind


def gen(g):
    spec = g.hist(1, 3, profiles=(0, 2), weight=0.4, filter=0.25)
    spec = apart(with_defs(g, spec, 0.25))
    if g.bool(0.3):
        spec["defs"] = dict(spec.get("defs") or {}, **g.choice(({"s": 2}, {"s": 0.5}, {"s": "u - 1", "t": 3}, {"s": "v"}, {"s": True})))
    if g.bool(0.05):
        spec["weight"] = g.choice((0, 0.0, "0*w"))
    if g.bool(0.3):
        spec["att"] = g.choice(({"note": "a"}, {"note": [1, 2], "n": 3}, {"k": {"a": 1}}))
    other, kind = changed(g, spec)
    names = [f for f in FIELDS if f in set(spec_fields(spec, other))]
    data = g.data_for(names, 0, 9)
    n = data["n"]
    tail = g.data_for(names, 0, 4)
    return {"spec": spec, "other": other, "kind": kind, "filled": g.bool(0.85), "data": data, "tail": tail, "book": g.bool(0.3), "deep": g.bool(),
            "derive": [[g.choice(("project", "drop", "rebinby", "select", "scale", "copy", "json", "weight", "filter")), g.int(0, 15), g.int(0, 63)] for _ in range(g.int(0, 2))]}
