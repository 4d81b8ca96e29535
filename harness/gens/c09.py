from gens.base import *
import math


def edges(a):
    if a["t"] == "bin":
        return [a["lo"] + (a["hi"] - a["lo"]) * i / a["n"] for i in range(a["n"] + 1)] if a["n"] else [a["lo"]]
    if a["t"] == "split":
        return sorted(a["edges"])
    if a["t"] == "intbin":
        return list(range(a["min"] - 1, a["max"] + 2))
    return [a["org"] + a["w"] * k for k in range(-3, 4)]


def num(v):
    if v != v:
        return "nan"
    if v in (INF, -INF):
        return "inf" if v > 0 else "-inf"
    return str(int(v)) if v == int(v) else repr(float(v))


SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


CONSTS = (("pi", math.pi), ("2*pi", 2*math.pi), ("pi/2", math.pi/2), ("e", math.e), ("pi - 1", math.pi - 1), ("-pi", -math.pi), ("pi - e", math.pi - math.e), ("1 + pi", math.pi + 1), ("e - pi", math.e - math.pi),
          ("2*pi/3", 2*math.pi/3), ("1/pi", 1/math.pi), ("pi*e", math.pi*math.e), ("3 - pi", 3 - math.pi), ("0", 0.0), ("2*e - 1.5*pi", 2*math.e - 1.5*math.pi), ("Pi", math.pi), ("E/2", math.e/2))
TEXT = dict((v, [t for t, x in CONSTS if x == v]) for _, v in CONSTS)


def constaxis(g):
    a = g.a_split("v")
    a["edges"] = sorted(set(v for _, v in g.sample(CONSTS, g.int(2, 5))))
    return a


def literal(g, a, index, tol=None):
    """{"axis": index or None, "op", "v", "text"}"""
    t = a["t"]
    if t == "cut":
        neg = a["e"] in ("p",) and g.bool()
        return {"axis": index, "op": "cut", "v": not neg, "text": ("not " if neg else "") + a["e"]}
    if t == "groupby":
        if a["e"] == "p":
            neg = g.bool()
            return {"axis": index, "op": "==" if not neg else "!=", "v": True, "text": "p" if not neg else "not p"}
        val = (lambda: g.svalue()) if a["e"] in ("c", "d") else (lambda: g.ivalue()) if a["e"] == "i" else (lambda: g.quarter())
        if g.bool(0.3):
            vals = [val() for _ in range(g.int(1, 3))]
            op = g.choice(("in", "not in"))
            return {"axis": index, "op": op, "v": vals, "text": "%s %s {%s}" % (a["e"], op, ", ".join(repr(v) for v in vals))}
        v = val()
        op = g.choice(("==", "!=", "==", "!=", "<", "<=", ">", ">="))
        s = repr(v)
    else:
        k = g.below(20)
        if k < 13 and t == "groupbin" and g.bool(0.15):
            k, v = 18, g.choice((INF, -INF))
        elif k < 13:
            v = g.choice(edges(a))
        elif k == 13:
            v = round(g.choice(edges(a)) + g.choice((0.001, -0.001, 1e-6, 0.02, -0.02, 0.1)), 9)
        elif k < 18:
            v = g.quarter() if t != "intbin" else g.choice((g.int(-5, 8), g.quarter()))
        elif k == 18:
            v = g.choice((INF, -INF))
        else:
            v = NAN
        right = ("<", ">=") if a.get("cl", True) else ("<=", ">")
        op = g.choice(right) if g.bool(0.65) else g.choice(("<", "<=", ">", ">=", "==", "!="))
        if v != v:
            op = g.choice(("==", "!="))
        elif v in (INF, -INF):
            op = g.choice(("<", "<=", ">", ">=", "<", ">", "=="))
        s = num(v)
        off = None
        if t == "split" and v in TEXT and g.bool(0.8):
            s = g.choice(TEXT[v])
        elif op not in ("==", "!=") and k < 13 and g.bool(0.3 if tol is None else 0.7):
            # off the edge by less than the tolerance
            off = g.choice((0.9, -0.9, 0.5, -0.5, 0.2)) * (1e-12 if tol is None else tol)
            s = repr(v + off) if v + off != int(v + off) else num(v)
        elif tol is not None and k >= 13 and k < 18:
            # never at the limit of the tolerance
            d = min([abs(x - v) for x in (edges(a) if t != "intbin" else [round(v)] + edges(a))] + ([abs((v - a["org"]) / a["w"] - round((v - a["org"]) / a["w"])) * a["w"]] if t == "groupbin" else []))
            if d < 1.5 * tol:
                v = g.choice(edges(a))
                s = num(v)
    k = g.below(4)
    text = "%s %s %s" % (a["e"], op, s)
    if k == 1:
        text = "%s %s %s" % (s, SWAP[op], a["e"])
    elif k == 2 and v == v:
        text = "not %s %s %s" % (a["e"], NEG[op], s)
    out = {"axis": index, "op": op, "v": v, "text": text}
    if t != "groupby" and off:
        out["off"] = off
    return out


def gen(g):
    used = []
    axes = []
    names = {}
    for _ in range(g.int(1, 3)):
        kind = g.choice(("bin", "split", "intbin", "cut", "groupby", "groupbin", "bin", "groupbin"))
        a = g.axis(kind, used)
        if a is None:
            continue
        if a["t"] == "cut" and a["e"] not in ("p", "not q", "c == 'a'", "i == 1", "u < v", "q or i >= 2"):
            a["e"] = "u < v"
        key = a["e"]
        if key in names or any(sorted(fields_in(key)) == sorted(fields_in(k)) for k in names):
            continue
        names[key] = 1
        axes.append(a)
    if g.bool(0.08) and not any("v" in fields_in(a["e"]) for a in axes):
        axes.append(constaxis(g))
    tol = g.pick((8, None), (1, 1e-4), (1, 1e-8))
    if not axes:
        axes = [g.a_bin("u")]
    # a comparison on a groupby/intbin axis must not also be what a cut axis computes
    for a in axes:
        if a["t"] == "cut" and a["e"] in ("c == 'a'", "i == 1") and any(b["e"] in ("c", "i") for b in axes):
            a["e"] = "u < v"
    if len([a for a in axes if a["e"] == "u < v"]) > 1:
        axes = [a for a in axes if a["e"] != "u < v"] or [g.a_bin("u")]
    spec = {"axes": axes + g.profiles(0, 1), "weight": g.weight(0.3), "filter": g.filter(0.1)}
    f = spec_fields(spec)
    data = g.data_for(f, 0, 10)
    order = [i for i, a in enumerate(axes) if a["t"].startswith("group")] + [i for i, a in enumerate(axes) if not a["t"].startswith("group")]
    pos = dict((i, k) for k, i in enumerate(order))     # position among the histogram's binned axes
    k = g.below(20)
    lits = []
    if any(a["t"].startswith("group") and a["e"] != "p" for a in axes) and g.bool(0.15):
        # alternatives of several conditions on one sparse axis
        i = g.choice([i for i, a in enumerate(axes) if a["t"].startswith("group") and a["e"] != "p"])
        terms = [[literal(g, axes[i], pos[i], None) for _ in range(g.int(1, 3))] for _ in range(g.int(2, 3))]
        return {"spec": spec, "data": data, "form": "dnf", "terms": terms, "lits": [], "filled": True, "tol": None, "axis": pos[i]}
    if k < 10:
        i = g.below(len(axes))
        form = "and"
        lits = [literal(g, axes[i], pos[i], tol)]
    elif k < 15:
        form = "and"
        for _ in range(g.int(2, 3)):
            i = g.below(len(axes))
            lits.append(literal(g, axes[i], pos[i], tol))
    elif k < 18:
        form = "or"
        i = g.choice(order[:1])
        for _ in range(g.int(2, 3)):
            if g.bool(0.15):
                i = g.below(len(axes))
            lits.append(literal(g, axes[i], pos[i], tol))
    elif k == 18:
        form = "unknown"
        lits = [{"axis": None, "op": None, "v": None, "text": g.choice(("zz > 1", "zz", "not zz", "zz == 'a'", "zz in {1, 2}", "%s + 1.125 > 2" % "u", "zz < yy", "u*u > 1", "u + zz < 1", "zz > 1 and zz < 3"))}]
    else:
        form = "unknown"
        i = g.below(len(axes))
        lits = [literal(g, axes[i], pos[i], tol), {"axis": None, "op": None, "v": None, "text": g.choice(("zz > 1", "zz == 'a'", "u*u > 1"))}]
    if any(x["v"] in (INF, -INF) or x["v"] != x["v"] for x in lits if isinstance(x["v"], float)):
        # have something there for the comparison to keep or drop
        for f in ("x", "y", "z"):
            for k in range(min(3, len(data["cols"].get(f, ())))):
                if g.bool(0.8):
                    data["cols"][f][k] = g.choice((INF, -INF, NAN))
    return {"spec": spec, "data": data, "form": form, "lits": lits, "filled": g.bool(0.9), "tol": tol}
