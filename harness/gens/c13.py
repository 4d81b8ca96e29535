from gens.base import *

LARGE = True


def gen(g):
    spec = with_defs(g, apart(g.hist(0, 3, profiles=(0, 3), weight=0.5, filter=0.2)))
    names = spec_fields(spec)
    nprof = len([a for a in spec["axes"] if a["t"] == "profile"])
    empty = any(a.get("n") == 0 for a in spec["axes"])      # no finite bin to normalize
    reqs = []
    for _ in range(g.int(1, 3)):
        ps = g.sample(range(nprof), g.int(0, nprof))
        count = g.bool(0.8)
        eff = g.bool(0.4) or (not count and not ps)
        reqs.append({"profiles": ps, "how": [g.below(3) for _ in ps], "count": count, "effcount": eff, "error": g.bool(0.7), "normalized": g.bool(0.35) and not empty, "default": g.bool(0.3)})
    return {"spec": spec, "data": g.data_for(names, 0, 12, wneg=g.bool(0.3)) if g.bool(0.95) else None, "reqs": reqs, "scale": g.pick((6, None), (1, 2.0**-20), (1, 2.0**20), (1, 0.5))}
