from gens.base import *

PROFS = ("u", "v", "u + v", "u*v", "max(u, v)", "min(u, v, w + 1)", "max(u, 0, v)", "where(p, u, v)", "where(u > 0, v, w)", "abs(u)", "hypot(u, v)", "sqrt(abs(u))", "sign(v)", "2*u", "-u", "i", "i + j", "max(i, j)", "floor(u)", "u - v", "abs(u - v)", "fmax(v, u)", "u % 2", "u/4", "u**2", "1 - u")
NAMES = ["x", "u", "v", "w", "i", "j", "c", "p", "q"]


def spec(g):
    s = g.hist(0, 2, profiles=(0, 0), weight=0.4, filter=0.3, pool=("x", "u", "v"))
    seen = [a["e"] for a in s["axes"]]
    for e in g.sample(PROFS, g.int(0, 3)):
        if e not in seen:
            s["axes"].append(g.a_profile(e))
            seen.append(e)
    if g.bool(0.25):
        e = g.choice(("max(u, v)", "min(v, u)", "max(u, v, w)", "abs(max(u, v))", "where(u > v, u, v)"))
        if e not in seen:
            s["axes"].insert(0, g.a_bin(e))
    for a in s["axes"]:
        a["e"] = a["e"].replace("y", "x").replace("z", "x").replace("d", "c") if a["t"] in ("bin", "split", "groupbin", "groupby") and len(a["e"]) == 1 else a["e"]
    seen, axes = [], []
    for a in s["axes"]:
        if a["e"] not in seen:
            seen.append(a["e"])
            axes.append(a)
    s["axes"] = axes
    if g.bool(0.3):
        s["att"] = {"note": [1, {"a": 2}], "n": g.int(0, 3)}
    with_defs(g, s, 0.3)
    return s


def gen(g):
    specs = [spec(g) for _ in range(g.int(1, 3))]
    specs = [s for s in specs if spec_fields(s)] or [{"axes": [g.a_bin("u")], "weight": None, "filter": None}]
    names = spec_fields(*specs)
    steps = []
    for _ in range(g.int(1, 6 if not g.big else 12)):
        k = g.below(10)
        # who: -1 the whole book, else one member
        st = {"who": g.int(-1, len(specs) - 1), "data": g.data_for(names, 0, 5, wnan=False), "how": g.choice(("dict", "kw", "mixed", "lists")), "alias": g.bool(0.2), "view": g.bool(0.2)}
        if k < 4:
            st["op"] = "fill"
        elif k < 6:
            st["op"] = "missing"
            st["pick"] = [g.below(8) for _ in range(g.int(1, 3))]
        elif k < 8:
            st["op"] = "length"
            st["pick"] = [g.below(8) for _ in range(g.int(1, 2))]
            st["delta"] = g.choice((1, -1, 2, 7, -100))
            st["one"] = g.bool(0.4)
        elif k == 8:
            st["op"] = "type"
            st["pick"] = [g.below(8)]
            st["bad"] = g.choice(("strings", "nones", "objects"))
        else:
            st["op"] = "refused"
            st["pick"] = [g.below(8), g.below(8)]
        steps.append(st)
    steps.append({"op": "fill", "who": -1, "data": g.data_for(names, 1, 4, wnan=False), "how": "dict", "alias": False, "view": False})
    return {"specs": specs, "steps": steps, "nested": g.bool(0.4), "copied": g.choice((None, None, "copyonfill", "copy"))}
