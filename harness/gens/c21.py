from gens.base import *


def hist(g):
    s = g.hist(1, 3, profiles=(0, 2), weight=0.4, filter=0.1, kinds=("bin", "bin", "split", "intbin", "cut", "groupby", "groupbin"), shuffle=True)
    for a in s["axes"]:
        if a["t"] == "bin" and a["n"] == 0:
            a["n"], a["hi"] = 2, a["lo"] + 2.0
        if a["t"] == "split" and len(a["edges"]) < 2:
            a["edges"] = [0.0, 1.5]
    if not any(a["t"] != "profile" for a in s["axes"]):
        s["axes"].append({"t": "bin", "e": "x", "n": 2, "lo": 0.0, "hi": 1.0, "u": True, "o": True, "N": True, "cl": True})
    apart(s)
    if s["weight"] == "w*v":
        s["weight"] = "w"
    with_defs(g, s, 0.15)
    return s


def plot(g, heat=True):
    s = hist(g)
    names = spec_fields(s)
    data = g.data_for(names, 0, 8, wnan=False, wneg=False, big=False) if g.bool(0.95) else None
    idx = [i for i, a in enumerate(s["axes"]) if a["t"] != "profile"]
    prof = [i for i, a in enumerate(s["axes"]) if a["t"] == "profile"]
    order = g.sample(idx, len(idx))
    out = {"spec": s, "data": data, "prof": g.choice(prof) if prof and g.bool(0.5) else None, "how": [g.below(6) for _ in range(5)], "chain": []}
    if heat and len(order) >= 2 and g.bool(0.25):
        ok = [i for i in order if s["axes"][i]["t"] != "split"]
        if len(ok) >= 2:
            out["kind"] = "heatmap"
            out["last"] = ok[:2]
            rest = [i for i in order if i not in ok[:2]]
            for ch in g.sample(("beside", "below"), g.int(0, 2)):
                if rest:
                    out["chain"].append([ch, rest.pop()])
            out["opts"] = opts(g, False)
            if len(idx) == 2 and g.bool(0.3):
                groups = [i for i in idx if s["axes"][i]["t"].startswith("group")]
                out["last"] = groups + [i for i in idx if i not in groups]
                out["default"] = True
            return out
    kind = g.choice(("bar", "step", "area", "line", "marker"))
    out["kind"] = kind
    out["last"] = [order[0]]
    rest = order[1:]
    channels = ["overlay", "beside", "below"] + (["stack"] if kind in ("bar", "area") else [])
    for ch in g.sample(channels, g.int(0, 2)):
        if ch in ("overlay", "stack") and any(c[0] in ("overlay", "stack") for c in out["chain"]):
            continue
        if rest:
            out["chain"].append([ch, rest.pop()])
    out["opts"] = opts(g, True)
    split = any(c[0] in ("beside", "below") for c in out["chain"])
    e = g.choice((None, True, False))
    if split:
        e = False if kind == "marker" else g.choice((None, False))
    if e is not None:
        out["opts"]["error"] = e
    if g.bool(0.2):
        out["opts"]["normalized"] = True
    if len(out["chain"]) == 1 and out["chain"][0][0] == "stack" and g.bool(0.5):
        out["order"] = g.choice((["a", "b", "c"], ["b", "a"], ["z z", "a", "B", "c"], ["c"]))
    out["default"] = g.bool(0.5)
    return out


def stacked(g):
    """A stack of several categories in some given order."""
    a = g.pick((4, {"t": "groupby", "e": "c"}), (1, g.a_cut("p")))
    s = {"axes": [a, {"t": "bin", "e": "u", "n": 2, "lo": -1.0, "hi": 1.0, "u": False, "o": True, "N": False, "cl": True}], "weight": None, "filter": None}
    values = {"groupby": ["a", "b", "c", "aa", "B"], "cut": ["pass", "fail"]}[a["t"]]
    data = g.data_for(spec_fields(s), 3, 9, wnan=False, wneg=False, big=False)
    if a["t"] == "groupby":
        data["cols"]["c"] = [g.choice(values) for _ in range(data["n"])]
    order = g.sample(values, g.int(1, len(values)))
    return {"spec": s, "data": data, "prof": None, "how": [g.below(6) for _ in range(5)], "chain": [["stack", 0]], "kind": g.choice(("bar", "area")), "last": [1], "opts": opts(g, True), "order": order, "default": False}


def opts(g, one):
    out = {}
    if g.bool(0.15):
        out["width"] = g.choice((100, 200))
    if g.bool(0.15):
        out["height"] = g.choice((50, 300))
    if g.bool(0.15):
        out["title"] = g.choice(("one", "two"))
    if g.bool(0.15):
        out["config"] = g.choice(({"a": 1}, {"b": {"c": 2}}, {"a": 2}))
    if g.bool(0.15):
        out["yscale"] = g.choice(("log", {"type": "log"}, "sqrt", {"zero": True}, {"type": "log", "base": 2}))
    if g.bool(0.1):
        out["xscale"] = g.choice(("log", {"zero": True}))
    if g.bool(0.1):
        out["colorscale"] = g.choice(("log", {"scheme": "plasma"}))
    return out


def combo(g, depth=2, outer=None):
    k = g.choice(("overlay", "beside", "below", "grid")) if outer is None else g.choice({"beside": ("overlay", "below"), "below": ("overlay", "beside"), "grid": ("overlay",)}[outer])
    parts = []
    for _ in range(g.int(1, 3)):
        if k != "overlay" and depth > 1 and g.bool(0.35):
            parts.append(combo(g, depth - 1, k))
        else:
            p = plot(g, k != "overlay")
            if k == "overlay":
                p["chain"] = [c for c in p["chain"] if c[0] not in ("beside", "below")]
            parts.append(p)
    return {"combo": k, "parts": parts, "numcol": g.int(1, 3), "config": g.choice((None, None, {"b": 7})), "iter": g.bool(0.3)}


def gen(g):
    top = stacked(g) if g.bool(0.05) else combo(g) if g.bool(0.45) else plot(g)
    return {"top": top, "text": g.bool(0.2), "copies": g.choice((20, 26, 27, 30, 55)) if g.bool(0.02) else 0}
