from gens.base import *

# a pool of axes from which everything is derived; binned axes have an interior edge at 0
def spec(g):
    axes = []
    if g.bool(0.5):
        axes.append(g.a_groupby(g.choice(("c", "i"))))
    if g.bool(0.3):
        axes.append({"t": "groupbin", "e": "v", "w": 1.0, "org": 0.0, "N": True, "cl": True})
    u, o, N, _ = g.flows()
    k = g.below(3)
    if k == 0:
        axes.append({"t": "bin", "e": "u", "n": 4, "lo": -2.0, "hi": 2.0, "u": u, "o": o, "N": N, "cl": True})
    elif k == 1:
        axes.append({"t": "split", "e": "u", "edges": [-2.0, -1.0, 0.0, 1.0, 2.0], "u": u, "o": o, "N": N, "cl": True})
    else:
        axes.append({"t": "intbin", "e": "u", "min": -2, "max": 2, "u": u, "o": o})
        axes[-1]["e"] = "j"
    if g.bool(0.4):
        axes.append(g.a_cut("p"))
    axes += g.profiles(0, 2, pool=("v", "u*v", "u"))
    out = {"axes": axes, "weight": g.pick((3, None), (2, "w"), (1, 2.0)), "filter": g.pick((4, None), (1, "q and u < 3"), (1, "u < v"))}
    if g.bool(0.4):
        out["defs"] = {"r": "u + v"}
    if g.bool(0.5):
        out["att"] = {"note": g.choice(("a", [1, 2], {"k": 1})), "n": g.int(0, 3)}
    return out


DERIVE = ("copy", "copyonfill", "cleared", "weight", "filter", "systematic", "add", "mul", "rmul", "project", "drop", "select", "rebin", "rebinby", "group", "json", "pickle", "book", "bookcopy", "bookcopyonfill", "bookadd", "bookjson", "bookgroup", "samples", "axesof", "selectcut", "selectgroup")
MUTATE = ("fill", "fill", "fill", "fill", "imul", "iadd", "clear", "attach", "detach", "setatt", "bookfill", "togroup", "bookimul", "bookiadd", "defs", "look")


def gen(g):
    specs = [spec(g)]
    if g.bool(0.4):
        specs.append(spec(g))
    names = spec_fields(*specs)
    for f in ("u", "v", "w", "p", "q"):
        if f not in names:
            names.append(f)
    # every derived histogram can be filled: give all fields
    names = ["u", "v", "w", "i", "j", "c", "p", "q"]
    ops = []
    n = g.int(2, 9 if not g.big else 20)
    if g.bool(0.5):
        # directed: a partner, a derivation from the first and the last object, changes of either (-1: the last one made)
        n = n // 3
        for _ in range(g.int(0, 2)):
            ops.append([g.choice(("cleared", "copyonfill", "copy", "json", "weight", "filter", "clear", "fill")), g.choice((0, -1)), 0, g.below(6)])
        for _ in range(g.int(1, 2)):
            a, b = g.choice(((0, -1), (-1, 0), (-1, -1), (0, 1)))
            ops.append([g.pick((3, "add"), (3, "group"), (1, "iadd"), (12, g.choice(DERIVE))), a, b, g.below(6)])
            for _ in range(g.int(1, 2)):
                ops.append([g.pick((2, "fill"), (1, g.choice(MUTATE))), g.choice((0, -1, -1, -2)), g.choice((0, -1)), g.below(4)])
    for _ in range(n):
        if g.bool(0.5):
            ops.append([g.choice(DERIVE), g.below(8), g.below(8), g.below(6)])
        else:
            ops.append([g.choice(MUTATE), g.below(8), g.below(8), g.below(4)])
    fills = [g.data_for(names, 1, 5, wnan=False) for _ in range(2)]
    return {"specs": specs, "fills": fills, "ops": ops, "prefill": [g.bool(0.8) for _ in specs], "unseen": g.bool(0.4)}
