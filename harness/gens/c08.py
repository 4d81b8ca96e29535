from gens.base import *
from gens.exprs import Exprs, clauses

NUM = ("u", "v", "i", "j", "u", "i", "0", "1", "0.5", "-1", "2", "u + v", "2*u", "u - 1", "i*j", "-u", "abs(u)", "max(u, v)", "i + j", "u*v", "where(p, u, v)", "i - 1", "j/2", "x", "x")
STR = ("c", "d", "c", "'a'", "'b'", "'aa'", "''")


class Cond(Exprs):
    def comparison(self):
        g = self.g
        k = g.below(25)
        if k < 10:
            return "%s %s %s" % (g.choice(NUM), g.choice(("<", "<=", ">", ">=", "==", "!=")), g.choice(NUM)), 4
        if k < 12:
            t = g.choice(NUM)
            for _ in range(g.pick((4, 2), (2, 3), (1, 4))):
                t += " %s %s" % (g.choice(("<", "<=", ">", ">=", "==", "!=", "<", "<=", ">", ">=")), g.choice(NUM))
            return t, 4
        if k < 14:
            f = g.choice(("i", "j", "u", "i + j"))
            vals = [str(x) for x in g.sample(range(-2, 5), g.int(1, 4))] if f != "u" else [str(x / 4.0) for x in g.sample(range(-4, 6), g.int(1, 5))]
            return "%s %s {%s}" % (f, g.choice(("in", "not in")), ", ".join(vals)), 4
        if k < 16:
            return "%s %s {%s}" % (g.choice(("c", "d")), g.choice(("in", "not in")), ", ".join(repr(x) for x in g.sample(("a", "b", "c", "aa", ""), g.int(1, 3)))), 4
        if k == 16:
            return "%s %s {}" % (g.choice(("c", "i", "u")), g.choice(("in", "not in"))), 4
        if k < 19:
            a, b = g.choice(STR), g.choice(STR)
            if a.startswith("'") and b.startswith("'"):
                a = "c"
            return "%s %s %s" % (a, g.choice(("<", "<=", ">", ">=", "==", "!=", "==")), b), 4
        if k == 19:
            return g.choice(("p == q", "p != q", "p == True", "q == False", "p != True")), 4
        if k == 24:
            # never equal
            a, b = g.choice(("c", "d", "c", "'a'")), g.choice(("i", "u", "1", "0.5", "j", "u + v"))
            if a == "'a'" and b in ("1", "0.5"):
                b = "i"
            return "%s %s %s" % ((a, g.choice(("==", "!=")), b) if g.bool() else (b, g.choice(("==", "!=")), a)), 4
        return g.choice(("p", "q", "p", "q", "p")), 5


def gen(g):
    ex = Cond(g)
    shared = []
    conds = []
    for _ in range(g.int(1, 3)):
        def leaf():
            if shared and g.bool(0.3):
                return g.choice(shared)
            return ex.comparison()
        c = ex.logic(g.pick((1, 0), (3, 1), (4, 2), (2, 3)), leaf)
        if clauses(c[0]) > 120 or c[0] in ("p", "q"):
            c = "u > 0 and p", 2
        shared.append(c)
        conds.append(c[0])
    defs = {}
    if g.bool(0.2):
        defs["r"] = "u - v"
        conds[0] = "(%s) %s r %s %s" % (conds[0], g.choice(("and", "or")), g.choice(("<", ">=", "==")), g.choice(("0", "u", "0.5")))
    if g.bool(0.15):
        defs["m"] = g.choice(("p and u > 0", "i == 1", "c == 'a'", "not q", "p or q"))
        conds[-1] = "%s %s %s(%s)" % ("m" if g.bool() else "not m", g.choice(("and", "or")), g.choice(("", "not ")), conds[-1])
    for i, c in enumerate(conds):
        if clauses(c) > 200:
            conds[i] = "u > 0 and p"
    n = g.int(1, 7)
    cols = {"u": [g.quarter(-6, 6) for _ in range(n)], "v": [g.quarter(-6, 6) for _ in range(n)], "i": [g.int(-2, 4) for _ in range(n)], "j": [g.int(-2, 4) for _ in range(n)],
            "x": [g.fvalue(nan=False) for _ in range(n)], "c": [g.svalue() for _ in range(n)], "d": [g.svalue() for _ in range(n)], "p": [g.bool() for _ in range(n)], "q": [g.bool() for _ in range(n)]}
    dt = {}
    if g.bool(0.2):
        dt["i"] = g.choice(("i1", "i4", "f8"))
    if g.bool(0.2):
        dt["c"] = "O"
    return {"conds": conds, "defs": defs, "data": {"cols": cols, "dt": dt}, "weight": g.bool(0.3)}
