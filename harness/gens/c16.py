from gens.base import *
from gens.exprs import Exprs, weight

PATHS = ("a", "b", "c", "n/a", "n/b", "n/m/a", "n/m/b", "k/a", "n/m/k/l/a", "n/m/k/l/i/j/a", "A", "n/A")


def onehist(g, shared):
    """A histogram whose expressions share parts with those of others."""
    def num():
        if shared and g.bool(0.45):
            return g.choice(shared)
        e = Exprs(g, ("u", "v", "i", "j"), [(s, 0) for s in shared[:2] if weight(s) < 30], discontinuous=True).text(g.pick((3, 0), (3, 1), (2, 2)))
        if weight(e) > 60:
            e = "u"
        shared.append(e)
        return e
    axes = []
    used = []
    for _ in range(g.int(0, 2)):
        k = g.below(6)
        if k <= 1:
            axes.append(g.a_bin(num()))
        elif k == 2:
            axes.append(g.a_split(num()))
        elif k == 3:
            axes.append(g.a_groupby(g.choice(("c", "i", "p"))))
        elif k == 4:
            axes.append(g.choice((g.a_intbin("i"), g.a_intbin("j"), g.a_groupbin("u"))))
        else:
            axes.append(g.a_cut(g.choice(("p", "u > 0", "u < v", "p and u > 0", "not q", "c == 'a'"))))
    out = []
    for a in axes:
        if a["e"] not in used:
            used.append(a["e"])
            out.append(a)
    for _ in range(g.int(0, 2)):
        e = num()
        if e not in [a["e"] for a in out if a["t"] == "profile"]:
            out.append(g.a_profile(e))
    if not any(fields_in(a["e"]) for a in out):
        out = [g.a_bin("u")]
    return {"axes": out, "weight": g.pick((4, None), (2, "w"), (1, num()), (1, 2.0)), "filter": g.filter(0.2)}


def gen(g):
    shared = []
    ops = []
    live = []

    def there():
        return g.choice(live) if live and g.bool(0.85) else g.choice(PATHS)
    hi = 8 if not g.big else 16
    if g.bool(0.06):
        # many histograms of the same quantity
        one = onehist(g, shared)
        for k in range(g.int(8, 20)):
            live.append("many%d" % k)
            ops.append({"op": "set", "path": "many%d" % k, "spec": one if g.bool(0.7) else onehist(g, shared), "direct": False})
        hi = 3
    for _ in range(g.int(1, hi)):
        k = g.below(16)
        if k < 6 or not ops:
            p = g.choice(PATHS)
            live.append(p)
            ops.append({"op": "set", "path": p, "spec": onehist(g, shared), "direct": g.bool(0.4)})
        elif k < 11:
            ops.append({"op": "fill", "data": g.data_for(("u", "v", "w", "i", "j", "c", "p", "q"), 0, 5), "sub": g.bool(0.2), "kw": g.bool(0.2), "only": g.bool(0.5)})
        elif k == 11:
            ops.append({"op": "del", "path": there(), "direct": g.bool(0.4)})
        elif k == 12:
            ops.append({"op": "move", "path": there(), "to": g.choice(PATHS), "how": g.choice(("copy", "copyonfill", "cleared", "weight", "filter", "json"))})
        elif k == 13:
            ops.append({"op": "copy", "how": g.choice(("copy", "copyonfill", "json", "cleared", "add"))})
        elif k == 14:
            ops.append({"op": "alone", "path": there(), "data": g.data_for(("u", "v", "w", "i", "j", "c", "p", "q"), 1, 3)})
        else:
            ops.append({"op": "setbook", "path": g.choice(("n", "k", "n/m")), "specs": [onehist(g, shared) for _ in range(g.int(0, 2))]})
    ops.append({"op": "fill", "data": g.data_for(("u", "v", "w", "i", "j", "c", "p", "q"), 1, 5), "sub": False, "kw": False, "only": g.bool(0.5)})
    return {"ops": ops, "unseen": g.bool(0.3)}
