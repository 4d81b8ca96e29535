from gens.base import *

LARGE = True
import math
import struct

MIDS = ("bin",)


def gen(g):
    if g.below(6) == 5:
        return nondyadic(g)
    if g.below(400) == 399:
        return grid(g)
    spec = g.hist(1, 4 if g.big else 3)
    names = spec_fields(spec)
    data = g.data_for(names, 0, 14 if not g.big else 30, ibig=True)
    dt = {}
    for f in names:
        if f in ("i", "j", "k") and g.bool(0.4):
            t = g.choice(("i1", "i2", "i4", "u1", "u2", "u4", "u8", "f8"))
            if t == "f8":
                data["cols"][f] = [max(-2**50, min(2**50, v)) for v in data["cols"][f]]
            else:
                bits = int(t[1]) * 8
                lo, hi = (0, 2**bits - 1) if t[0] == "u" else (-2**(bits - 1), 2**(bits - 1) - 1)
                data["cols"][f] = [max(lo, min(hi, v)) for v in data["cols"][f]]
            # arithmetic on narrow integers wraps around: only bare fields
            if all(a["e"] == f for a in spec["axes"] if f in fields_in(a["e"])):
                dt[f] = t
            else:
                data["cols"][f] = [max(-100, min(100, v)) for v in data["cols"][f]]
        elif f in ("i", "j", "k"):
            if not all(a["e"] == f for a in spec["axes"] if f in fields_in(a["e"])):
                data["cols"][f] = [max(-2**40, min(2**40, v)) for v in data["cols"][f]]
        elif f in ("x", "y", "z", "u", "v") and g.bool(0.25):
            if g.bool():
                dt[f] = "f4"
                data["cols"][f] = [v if v != v or abs(v) < 1e6 or abs(v) == INF else (64.0 if v > 0 else -64.0) for v in data["cols"][f]]
            elif all(a["t"] not in ("groupbin",) or f not in fields_in(a["e"]) for a in spec["axes"]) or True:
                dt[f] = g.choice(("i8", "i4", "i2"))
                data["cols"][f] = [0 if v != v else int(max(-100.0, min(100.0, v))) for v in data["cols"][f]]
    for f in dt:
        # the single precision numbers next to an edge
        if dt[f] == "f4" and g.bool() and all(a["e"] == f for a in spec["axes"] if f in fields_in(a["e"])):
            near = [x for a in spec["axes"] if a["e"] == f and a["t"] in ("bin", "split", "groupbin") for x in edges(a)]
            if near:
                data["cols"][f] = [f4next(g.choice(near), g.choice((-1, 1))) if g.bool() else v for v in data["cols"][f]]
    data["dt"] = dt
    return {"spec": spec, "data": data, "rep": g.pick((6, 1), (1, 3), (1, 50))}


def grid(g):
    """More bins together than a short integer can count."""
    axes = [large_axis(g, g.choice(("bin", "split", "intbin")), e) for e in ("x", "i")]
    for a in axes:
        if a["t"] == "bin":
            a["hi"] = a["lo"] + (a["hi"] - a["lo"]) / a["n"] * 250
            a["n"] = 250
        elif a["t"] == "split":
            a["edges"] = [-100.0 + k * 0.5 for k in range(250)]
        else:
            a["max"] = a["min"] + 250
    data = large_data(g, ["x", "i"], 20, 40)
    data["cols"]["x"] = [100.0 if x != x or abs(x) == INF else x for x in data["cols"]["x"]]
    if axes[0]["t"] == "intbin":
        data["cols"]["x"] = [float(math.floor(x)) for x in data["cols"]["x"]]
    return {"spec": {"axes": axes, "weight": None, "filter": None}, "data": data, "rep": 1}


def edges(a):
    if a["t"] == "bin":
        return [a["lo"] + (a["hi"] - a["lo"]) * i / a["n"] for i in range(a["n"] + 1)] if a["n"] else [a["lo"]]
    if a["t"] == "split":
        return sorted(a["edges"])
    return [a["org"] + a["w"] * k for k in range(-3, 4)]


def f4next(x, sign):
    """A single precision number that is not x but close to it."""
    while True:
        y = struct.unpack("f", struct.pack("f", x + sign * (abs(x) * 2.0**-23 + 1e-9)))[0]
        if abs(y - x) > 1e-10:
            return y
        sign *= 2


def nondyadic(g):
    """Widths that are not exact in binary; values away from the edges."""
    n = g.int(1, 20)
    lo = g.choice((0.0, -1.0, 0.1, 1e-3, -5.5, 1e6))
    wid = g.choice((0.1, 0.3, 1.0 / 3.0, 0.7, 1e-3, 1e3))
    u, o, N, cl = g.flows()
    a = {"t": "bin", "e": "x", "n": n, "lo": lo, "hi": lo + n * wid, "u": u, "o": o, "N": N, "cl": cl}
    if g.bool(0.3):
        edges = sorted(set([lo + wid * k for k in g.sample(range(n + 1), g.int(1, 5))]))
        if len(edges) == 1:
            u = True
        a = {"t": "split", "e": "x", "edges": edges, "u": u, "o": o, "N": N, "cl": cl}
    vals = []
    for _ in range(g.int(0, 12)):
        k = g.int(-3, n + 3)
        vals.append(lo + (k + g.choice((0.5, 0.1, 0.9, 0.01, 0.99))) * wid)
    return {"spec": {"axes": [a], "weight": None, "filter": None}, "data": {"cols": {"x": vals}}, "rep": 1}
