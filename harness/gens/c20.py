from gens.base import *

EXPRS = ("x", "u + v", "sqrt(x)", "log(u, 2)", "2*x - 1", "a_b", "where(p, x, y)", "x**2", "(x)", "x ")
CUTS = ("x > 0", "p", "c == 'a'", 'c == "it is"', "not p", "p and x < 1", "x in {1, 2}")


def params(g, t):
    e = g.choice(CUTS) if t == "cut" else g.choice(EXPRS)
    if t == "bin":
        a = g.a_bin(e)
        if g.bool(0.3):
            # not exactly representable, many bins
            a["n"] = g.choice((1, 3, 7, 10, 33))
            a["lo"] = g.choice((0.1, -1/3., -1e-3, 5.3, -1e6, 0.0))
            a["hi"] = a["lo"] + g.choice((0.1, 1/3., 7.7, 1e-5, 1e6))
            a["inexact"] = True
        return a
    if t == "split":
        a = g.a_split(e)
        if g.bool(0.3):
            a["edges"] = [x / 7.0 for x in a["edges"]]
        return a
    return getattr(g, "a_" + t)(e)


def mutate(g, a):
    """One parameter changed to another valid value."""
    out = dict(a)
    keys = [k for k in a if k not in ("t", "inexact")]
    k = g.choice(keys)
    if k == "e":
        out["e"] = "p and q" if a["t"] == "cut" else "zz"
    elif k in ("u", "o", "N", "cl"):
        out[k] = not a[k]
    elif k == "n":
        out["n"] = a["n"] + 1 if a["lo"] < a["hi"] else a["n"]
        if out["n"] == a["n"]:
            out["n"], out["hi"] = 1, a["hi"] + 1.0
    elif k in ("lo", "min"):
        out[k] = a[k] - g.choice((1, 2))
    elif k in ("hi", "max"):
        out[k] = a[k] + g.choice((1, 2))
    elif k == "edges":
        c = g.below(3)
        e = sorted(a["edges"])
        if c == 0:
            out["edges"] = e + [e[-1] + 1.0]
        elif c == 1:
            out["edges"] = e[:-1] + [e[-1] + 0.25]
        else:
            out["edges"] = [e[0] - 0.5] + e[1:]
    elif k == "w":
        out["w"] = a["w"] * 2
    elif k == "org":
        out["org"] = a["org"] + 0.125
    return out, k


BAD = {
    "bin": ("numbins=-1", "numbins=1.5", "numbins='3'", "numbins=None", "low=high", "low>high", "low='0'", "high=None", "low=[1]", "flag=1", "flag='yes'", "flag=None", "nobins", "missing", "unknown"),
    "intbin": ("min=0.5", "max=2.5", "max=1.0", "min>max", "min='1'", "max=None", "flag=0", "flag='no'", "flag=None", "missing", "unknown"),
    "split": ("edges=[]", "edges=dup", "edges=str", "edges=None", "edges=['1']", "edges=[None]", "flag=1", "flag='yes'", "nobins", "missing", "unknown"),
    "groupbin": ("w=0", "w<0", "w=None", "w='1'", "org=None", "org='0'", "flag=1", "flag=None", "missing", "unknown"),
    "cut": ("missing", "unknown"), "groupby": ("missing", "unknown"), "profile": ("missing", "unknown"),
}


def gen(g):
    t = g.pick((5, "bin"), (4, "split"), (3, "intbin"), (3, "groupbin"), (1, "cut"), (1, "groupby"), (1, "profile"))
    a = params(g, t)
    m, k = mutate(g, a)
    probes = [g.choice((0.0, 0.25, 0.5, 1.0, -0.5, -1.0, 2.0, 3.0, 1e300, -1e300, INF, -INF, NAN, 1e-9, -1e-9)) for _ in range(4)] + [g.quarter() for _ in range(4)]
    others = g.axes(0, 3)
    return {"a": a, "m": m, "k": k, "bad": g.choice(BAD[t]), "probes": probes, "np": g.bool(0.3), "flag": g.below(4), "others": others, "pos": g.below(4), "shuffle": g.perm(3), "label": g.choice(("y", "x + 1", "zz"))}
