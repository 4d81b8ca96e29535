from gens.base import *

LARGE = True


def gen(g):
    s = g.hist(1, 4, profiles=(0, 2), weight=0.4, filter=0.1)
    if not any(a["t"] != "profile" for a in s["axes"]):
        s["axes"].append(g.axis("bin", [a["e"] for a in s["axes"]]))
    apart(s)
    with_defs(g, s, 0.15)
    names = spec_fields(s)
    np = len([a for a in s["axes"] if a["t"] == "profile"])
    nc = len([a for a in s["axes"] if a["t"] == "cut"])
    reqs = []
    for _ in range(g.int(1, 3)):
        if nc and g.bool(0.5):
            r = {"cuts": g.sample(range(nc), g.int(1, nc)), "opts": {}}
            if g.bool(0.4):
                r["opts"]["error"] = g.choice(("normal", "wilson", None))
            if g.bool(0.3):
                r["opts"]["level"] = g.choice((0.95, [0.5, 0.9]))
        else:
            r = {"profiles": g.sample(range(np), g.int(0, np)), "opts": {}}
            for k in ("effcount", "error"):
                if g.bool(0.4):
                    r["opts"][k] = g.bool()
            if g.bool(0.15) and not any(a["t"] == "bin" and a["n"] == 0 for a in s["axes"]):
                r["opts"]["normalized"] = True
        if g.bool(0.2) and (r.get("cuts") or r.get("profiles")):
            r["opts"]["count"] = False
        r["how"] = [g.below(6) for _ in range(9)]
        reqs.append(r)
    return {"spec": s, "data": g.data_for(names, 0, 10, wneg=g.bool(0.3)) if g.bool(0.92) else None, "reqs": reqs}
