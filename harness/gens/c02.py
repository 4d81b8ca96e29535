from gens.base import *

LARGE = True


def gen(g):
    spec = g.hist(0, 3, profiles=(0, 3), weight=0.65, filter=0.35)
    if isinstance(spec["weight"], float) and g.bool(0.6):
        # a number that is not its own abbreviation
        spec["weight"] = g.choice((0.1234567891, 0.1, 1234567.875, 7.000001))
    if g.bool(0.2):
        spec["defs"] = {"r": g.choice(("u + v", "2*u", "u*v", "u - 1"))}
        k = g.below(4)
        if k == 0:
            spec["axes"].append(g.a_profile("r*2" if g.bool() else "r"))
        elif k == 1 and isinstance(spec["weight"], str):
            spec["weight"] = "w*r"
        elif k == 2 and isinstance(spec["filter"], str):
            spec["filter"] = g.choice(("r > 1", "r <= 0 or u > 2", "r >= 0.5"))
        else:
            spec["axes"].append(g.a_profile("r + u"))
    names = spec_fields(spec)
    nfill = g.pick((4, 1), (1, 2), (1, 3))
    fills = [g.data_for(names, 0, 12 if not g.big else 40, inf=True) for _ in range(nfill)]
    dt = {}
    for f in names:
        if f in ("i", "j") and g.bool(0.4):
            # arithmetic on narrow integers is numpy's business: only bare fields are given a narrow type
            exprs = [a["e"] for a in spec["axes"]] + [spec["weight"], spec["filter"]] + list((spec.get("defs") or {}).values())
            if all(e == f or a_bare(e, f) for e in exprs if f in fields_in(e)):
                dt[f] = g.choice(("i1", "i2", "i4") if not g.large else ("i2", "i4"))
                if g.bool(0.5) and not g.large:
                    fills = [dict(d, cols=dict(d["cols"], **{f: [v * 20 for v in d["cols"][f]]})) for d in fills]
        elif f in ("u", "v", "w") and g.bool(0.2):
            dt[f] = "f4"
    for d in fills:
        d["dt"] = dt
    return {"spec": spec, "fills": fills}


def a_bare(e, f):
    # comparisons with a constant are safe
    return isinstance(e, str) and any(op in e for op in ("==", ">", "<")) and "+" not in e and "-" not in e and "*" not in e
