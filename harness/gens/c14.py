from gens.base import *


def gen(g):
    used = []
    cuts = g.axes(*g.pick((12, (1, 3)), (1, (4, 6))), kinds=("cut",), used=used)
    # two different cuts may not be the same expression
    others = g.axes(0, 2, kinds=("bin", "split", "intbin", "groupby", "groupbin"), used=used)
    axes = cuts + others
    axes = [axes[i] for i in g.perm(len(axes))] + g.profiles(0, 2)
    if not any(a["t"] == "cut" for a in axes):
        axes.append(g.a_cut("p"))
    spec = {"axes": axes, "weight": g.weight(0.5), "filter": g.filter(0.2)}
    names = spec_fields(spec)
    n = len([a for a in axes if a["t"] == "cut"])
    reqs = []
    for _ in range(g.int(1, 3)):
        reqs.append({"cuts": g.sample(range(n), g.int(1, n)), "how": [g.below(3) for _ in range(6)], "count": g.bool(0.8), "error": g.choice(("default", "normal", "wilson", None)),
                     "level": g.choice((None, 0.95, [0.95], [0.5, 0.9], [0.6826894921370859, 0.95, 0.997], [0.99, 0.25], 0, [0.9999, 0], 0.9999, 0.68, [0.68, 0.6826894921370859, 0.683], [0.125, 0.5, 0.25, 0.75])), "tuple": g.bool(), "np": g.bool(0.2)})
    return {"spec": spec, "data": g.data_for(names, 0, 15, wneg=g.bool(0.2)) if g.bool(0.95) else None, "reqs": reqs}
