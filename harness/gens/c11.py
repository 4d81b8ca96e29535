from gens.base import *

LARGE = True


def gen(g):
    used = []
    kind = g.choice(("bin", "split", "intbin", "groupbin"))
    target = g.axis(kind, used)
    if g.large:
        target = large_axis(g, kind, target["e"])
    elif kind in ("bin", "split") and g.bool(0.6):
        n = g.int(2, 7)
        if kind == "bin":
            target["n"], target["hi"] = n, target["lo"] + n * 0.5
        else:
            target["edges"] = sorted(k / 2.0 for k in g.sample(range(-5, 6), n))
    if kind == "intbin" and not g.large and g.bool(0.5):
        target["max"] = target["min"] + g.int(2, 7)
    others = g.axes(0, 1, kinds=("cut", "bin"), used=used) if g.large else g.axes(0, 2, used=used)
    k = g.int(0, len(others))
    axes = others[:k] + [target] + others[k:]
    spec = with_defs(g, {"axes": axes + g.profiles(0, 2), "weight": g.weight(0.4), "filter": g.filter(0.2)})
    names = spec_fields(spec)
    d = lambda hi: g.data_for(names, 0, hi, big=False)
    return {"spec": spec, "target": k, "data": d(12) if g.bool(0.93) else None, "more": d(4), "by": True if kind == "groupbin" else g.bool(0.5),
            "factor": g.int(1, 5 if not g.large else 40), "mask": g.int(0, 255) if not g.large else bits(g), "how": g.below(6), "bad": g.choice((0.0, 100.0, 0.125, -100.5, 0.3)), "np": g.bool(0.2), "shuffle": g.bool(0.2)}


def bits(g):
    below = lcg(g.int(0, 10**6))
    return sum((below(4) == 0) << k for k in range(300))
