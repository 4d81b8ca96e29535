from gens.base import *

LARGE = True


def gen(g):
    spec = with_defs(g, apart(g.hist(0, 2, profiles=(1, 4), weight=0.5, filter=0.3)), 0.3)
    if not any(a["t"] == "profile" for a in spec["axes"]):
        spec["axes"].append(g.a_profile("u*v"))
    n = len([a for a in spec["axes"] if a["t"] == "profile"])
    names = spec_fields(spec)
    return {"spec": spec, "data": g.data_for(names, 0, 10) if g.bool(0.93) else None, "more": g.data_for(names, 0, 4),
            "drop": g.int(0, 15) if n < 5 else g.int(1, 511), "how": [g.below(3) for _ in range(9)], "order": g.bool(0.3)}
