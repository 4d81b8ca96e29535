from gens.base import *

LARGE = True


def gen(g):
    spec = g.hist(0, 3, profiles=(0, 2), weight=0.5, filter=0.2)
    names = spec_fields(spec)
    datas = [None if g.bool(0.15) else g.data_for(names, 0, 8) for _ in range(3)]
    other = dict(spec)
    k = g.below(5)
    axes = list(spec["axes"])
    if k == 0:
        axes = axes + [g.a_bin("x*y")]
    elif k == 1 and len(axes) > 1:
        axes = axes[:-1]
    elif k == 2:
        i = g.below(len(axes))
        a = dict(axes[i])
        if a["t"] in ("bin", "split", "groupbin"):
            a["cl"] = not a["cl"]
        elif a["t"] == "intbin":
            a["max"] += 1
        else:
            a["e"] = a["e"] + " "
            a = {"t": "profile", "e": "u*u*v"} if a["t"] == "profile" else {"t": "groupby", "e": "j"} if a["t"] == "groupby" else {"t": "cut", "e": "v > 1.5"}
        axes[i] = a
    elif k == 3:
        other["weight"] = None if (spec["weight"] is not None or spec["filter"] is not None) else "w"
        if other["weight"] is None:
            other["filter"] = None
    else:
        axes = axes + [g.a_profile("u*u*v")]
    other["axes"] = axes
    return {"spec": spec, "datas": datas, "k": g.choice((0, 1, 2, 3, 0.5, 0.25, 4.0, -1, -2.0, 10, 0.1, 1234.5678901)), "np": g.below(5), "other": other,
            "otherdata": g.data_for(spec_fields(other), 0, 4), "more": g.data_for(names, 0, 3)}
