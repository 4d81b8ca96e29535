from gens.base import *


def gen(g):
    s = g.hist(0, 2, profiles=(0, 2), weight=0.45, filter=0.15)
    used = [a["e"] for a in s["axes"]]
    s["axes"] = [a for a in s["axes"] if a["t"] != "bin"] if g.bool(0.5) else s["axes"]
    e = g.choice([f for f in ("x", "y", "v", "u") if f not in used] or ["x*2"])
    b = g.a_bin(e)
    if b["n"] == 0:
        b["n"], b["hi"] = 3, b["lo"] + 1.5
    s["axes"].insert(g.below(len(s["axes"]) + 1), b)
    for a in s["axes"]:
        if a["t"] == "bin" and a["n"] == 0:
            a["n"], a["hi"] = 2, a["lo"] + 2.0
    if s["weight"] == "w*v":
        s["weight"] = "w"
    apart(s)
    with_defs(g, s, 0.15)
    names = spec_fields(s)
    nb = len([a for a in s["axes"] if a["t"] == "bin"])
    np = len([a for a in s["axes"] if a["t"] == "profile"])
    reqs = []
    for _ in range(g.int(1, 3)):
        reqs.append({"bin": g.below(nb), "prof": g.below(np) if np and g.bool(0.6) else None, "how": [g.below(6), g.below(6)], "swap": g.bool(0.3), "default": g.bool(0.3),
                     "name": g.choice((None, "h", "h1")), "title": g.choice((None, "a title")), "cache": g.bool(0.3)})
    return {"spec": s, "data": g.data_for(names, 0, 14, wneg=False) if g.bool(0.95) else None, "reqs": reqs, "scale": g.choice((None, None, 2, 0.5))}
