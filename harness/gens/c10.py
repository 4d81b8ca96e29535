from gens.base import *

LARGE = True


def gen(g):
    spec = with_defs(g, g.hist(1, 4, profiles=(0, 2), weight=0.4, filter=0.2, kinds=("bin", "split", "intbin", "cut", "groupby", "groupby", "groupbin", "groupbin")))
    names = spec_fields(spec)
    return {"spec": spec, "data": g.data_for(names, 0, 12) if g.bool(0.93) else None, "more": g.data_for(names, 0, 4),
            "keep": g.int(0, 63), "super": g.int(0, 63), "how": [g.below(6) for _ in range(6)], "order": g.bool(0.3), "pre": g.int(0, 31) if g.bool(0.3) else None}
