from gens.base import *

LARGE = True


def constant(g):
    """A name that is a constant unless a field of that name is given."""
    n = g.int(0, 5)
    return {"name": g.choice(("pi", "e", "Pi", "E")), "given": g.pick((3, None), (2, [g.quarter() for _ in range(n)]), (1, g.quarter())), "u": [g.quarter() for _ in range(n)], "as": g.choice(("profile", "weight", "bin", "def", "filter")),
            "how": g.choice(("dict", "kwargs", "mixed", "book", "dataframe")), "expr": g.choice(("{0}*u", "{0} + u", "u - {0}", "u/4 + {0}/2", "{0}", "2*{0}", "where(u > {0}, 1, {0})"))}


def gen(g):
    spec = g.hist(0, 3, profiles=(0, 2), weight=0.4, filter=0.2)
    if g.bool(0.15):
        e = g.choice(("x", "u", "i", "c"))
        spec = {"axes": [g.a_groupby("c") if e == "c" else g.a_intbin("i") if e == "i" else g.a_bin(e)], "weight": None, "filter": None}
    if g.bool(0.25):
        spec["defs"] = {"r": g.choice(("u + v", "2*u", "u - 1"))}
        spec["axes"].append(g.choice((g.a_profile("r"), g.a_profile("r + v"))))
    names = spec_fields(spec)
    data = g.data_for(names, 0, 10, inf=True, big=False)
    n = data["n"]
    consts = []
    if n > 0 and len(names) > 1:
        for f in names[1:]:
            if g.bool(0.25):
                data["cols"][f] = [data["cols"][f][0]] * n
                consts.append(f)
    for f in names:
        if f in INTS and g.bool(0.3):
            data["cols"][f] = [abs(x) for x in data["cols"][f]]
    variants = []
    for _ in range(g.int(2, 5)):
        kind = g.pick((3, "chunks"), (3, "permute"), (2, "kwargs"), (2, "mixed"), (2, "lists"), (2, "dtype"), (2, "strided"), (2, "dataframe"), (2, "ctor"), (2, "extra"), (3, "scalars"), (1, "readonly"), (1, "bookfill"), (1, "mapping"), (1, "repeat"))
        v = {"kind": kind}
        if kind == "chunks":
            v["cuts"] = sorted(g.list(lambda: g.int(0, n), 0, 5))
        elif kind == "permute":
            v["perm"] = g.perm(n)
        elif kind in ("mixed",):
            v["kw"] = g.subset(names)
        elif kind == "scalars":
            v["scalar"] = [f for f in consts if g.bool(0.8)]
            v["zerod"] = g.bool(0.4)
        elif kind == "dtype":
            dt = {}
            for f in names:
                if f in ("x", "y", "z", "u", "v", "w") and g.bool():
                    dt[f] = g.choice((">f8", "f4", "O")[:2])
                elif f in INTS and g.bool():
                    # narrow and unsigned types only where nothing is calculated from the field
                    exprs = [a["e"] for a in spec["axes"]] + [str(x) for x in (spec["weight"], spec["filter"]) + tuple((spec.get("defs") or {}).values())]
                    bare = all(e == f or f not in fields_in(e) for e in exprs)
                    xs = data["cols"][f]
                    dt[f] = g.choice(("i4", ">i8", "i2", "f8") + (("i1",) if bare and all(-128 <= x < 128 for x in xs) else ()) + (("u1", "u2", "u8") if bare and all(0 <= x < 256 for x in xs) else ()))
                elif f in BOOLS:
                    pass
                elif f in STRS and g.bool():
                    dt[f] = g.choice(("U80", "O"))
            v["dt"] = dt
        elif kind in ("extra", "bookfill"):
            v["len"] = g.int(0, 5)
        elif kind == "repeat":
            # mostly short, but longer than any block that an implementation would choose to work in
            v["total"] = g.pick((8, 40), (4, 1100), (2, 5000), (1, 70000), (1, 140000))
        variants.append(v)
    return {"spec": spec, "data": data, "variants": variants, "const": constant(g) if g.bool(0.15) else None, "probe": g.below(max(1, len(names)))}
