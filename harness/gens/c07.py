from gens.base import *
from gens.poly import Poly, Logic
from gens.exprs import Exprs, clauses, weight


def records(g, n):
    return {"cols": {"u": [g.quarter() for _ in range(n)], "v": [g.quarter() for _ in range(n)], "i": [g.int(-4, 6) for _ in range(n)], "j": [g.int(-2, 5) for _ in range(n)],
                     "p": [g.bool() for _ in range(n)], "q": [g.bool() for _ in range(n)], "c": [g.svalue() for _ in range(n)]}}


def gen(g):
    k = g.below(10)
    case = {"data": records(g, g.int(2, 6))}
    if k < 4:
        poly = Poly(g)
        p = poly.make(2)
        a, b = poly.write(p), poly.write(p)
        q = poly.mutate(p)
        c = poly.write(q, 1)
        if max(weight(a), weight(b), weight(c)) > 150:
            a, b, c = "u + v", "v + u", "u - v"
        case.update({"kind": "number", "same": [a, b], "differs": c})
        if g.bool(0.3):
            d = poly.make(1)
            case["def"] = poly.write(d, 1)
            m = g.choice(("{0} + u", "2*{0}", "u*{0}", "{0}", "{0} - v", "sqrt({0})", "-{0}/u"))
            case["with"] = [m.format("r"), m.format("(" + poly.write(d, 2) + ")")]
            if weight(case["with"][1]) > 150:
                del case["with"], case["def"]
    elif k < 7:
        logic = Logic(g)
        f = logic.make(2)
        while f[0] in ("p", "not"):
            f = ("and", f, ("p", "q"), ("cmp", "<", (((), 1),), (((("n", "u"), 1),), 1))) if False else ("and", f, ("in", "i", (1, 2)))
        a, b, c = logic.write(f), logic.write(f), logic.write(logic.mutate(f), 1)
        if max(weight(a), weight(b), weight(c)) > 400 or max(clauses(x) for x in (a, b, c)) > 200:
            a, b, c = "p and q", "q and p", "p or q"
        case.update({"kind": "logic", "same": [a, b], "differs": c})
    else:
        # a small population of unrelated expressions
        ex = Exprs(g)
        out = []
        for _ in range(g.int(3, 7)):
            m = g.below(8)
            if m == 0:
                t = g.choice(("c == 'a'", "c < 'b'", "c in {'a', 'b'}", "c in {'b'}", "i in {1, 2}", "i in {1, 'a'}", "'a' == c", "c != 'a'", "not p", "p", "{}", "True", "False", "None", "'a'", "1", "0", "1.0", "pi", "{1, 2}", "{1, 'a'}", "{2}", "-1", "0.5"))
            elif m < 3:
                t = ex.logic(2)[0]
            else:
                t = ex.text(g.pick((3, 1), (2, 2), (1, 0)))
            if weight(t) > 100 or clauses(t) > 200:
                t = "u"
            out.append(t)
        case.update({"kind": "population", "exprs": out})
    return case
