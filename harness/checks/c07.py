from core import *
import oracle
from oracle import Skip, evaluate, truth
from histbook.expr import Expr, ExpressionError


def value(e, r, kind):
    try:
        if kind == "logic":
            return truth(e, r, {})
        return evaluate(e, r, {})
    except Skip:
        return None


def differ(a, b):
    """Decisively different?"""
    if a is None or b is None:
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        return a != b
    return abs(a.x - b.x) > 1e-6 * max(1.0, abs(a.x), abs(b.x)) + 100 * (a.d + b.d)


def consistent(x, y, ex, ey):
    eq = x == y
    require(eq == (y == x), "equality of {0!r} and {1!r} is not symmetric", ex, ey)
    require((x != y) == (not eq) and (y != x) == (not eq), "== and != of {0!r} and {1!r} disagree", ex, ey)
    if eq:
        require(hash(x) == hash(y), "{0!r} and {1!r} are equal but hash differently", ex, ey)
    less, greater = x < y, y < x
    require((1 if eq else 0) + (1 if less else 0) + (1 if greater else 0) == 1, "{0!r} and {1!r}: == is {2}, < is {3}, > is {4}", ex, ey, eq, less, greater)
    require((x > y) == greater and (x <= y) == (less or eq) and (x >= y) == (greater or eq), "orderings of {0!r} and {1!r} disagree", ex, ey)
    require((y in set([x])) == eq and (y in {x: 1}) == eq, "{0!r} found in a set of {1!r}: {2}", ey, ex, not eq)
    return eq


def lookup(a, b, kind, defs=None):
    """An axis made with one of them is found by the other."""
    opts = {} if defs is None else {"defs": dict(defs)}
    if kind == "logic":
        axis = hax.cut(a)
    else:
        axis = hax.bin(a, 2, 0, 1)
    h = Hist(hax.bin("other", 3, 0, 3), axis, hax.bin("another", 3, 0, 3), **opts)
    require(h.axis[b] == axis, "axis {0!r} looked up as {1!r} gives {2}", a, b, h.axis[b])
    require(h.axis["other"].expr == "other", "lookup of the other axis")
    return [x.expr for x in binned(h.project(b))] == [a]


def check(case):
    kind = case["kind"]
    recs = records(case["data"])
    if kind == "population":
        xs = []
        for e in case["exprs"]:
            try:
                x = Expr.parse(e)
            except (ZeroDivisionError, OverflowError):
                continue
            except TypeError as err:
                if "complex" in str(err):
                    continue
                raise
            if re.search(r"[0-9]j\b", repr(x)) is None:       # complex constants are out of scope
                xs.append((x, e))
        for x, e in xs:
            require(x == Expr.parse(e), "{0!r} parsed twice is not equal to itself", e)
        for x, ex in xs:
            for y, ey in xs:
                if consistent(x, y, ex, ey):
                    for kind2 in ("number", "logic"):
                        try:
                            for r in recs:
                                a, b = value(ex, r, kind2), value(ey, r, kind2)
                                require(not differ(a, b), "{0!r} and {1!r} are considered equal but differ for {2}", ex, ey, r)
                        except (AssertionError, AttributeError, KeyError, TypeError):
                            pass        # not of that kind
                for z, ez in xs:
                    require(not (x < y and y < z) or x < z, "order of {0!r}, {1!r}, {2!r} is not transitive", ex, ey, ez)
        order = sorted(x for x, e in xs)
        again = sorted(x for x, e in reversed(xs))
        require(order == again, "sorting {0} depends on their order", case["exprs"])
        return ["population%d" % len(set(e for x, e in xs))] if len(xs) >= 2 else []

    a, b = case["same"]
    c = case["differs"]
    try:
        x, y = Expr.parse(a), Expr.parse(b)
    except (ZeroDivisionError, OverflowError):
        return []
    require(consistent(x, y, a, b), "{0!r} and {1!r} are not recognised as equal: {2!r} and {3!r}", a, b, x, y)
    require(lookup(a, b, kind) and lookup(b, a, kind), "projecting {0!r} by {1!r}", a, b)
    tags = [kind]
    decided = False
    for r in recs:
        va, vb = value(a, r, kind), value(b, r, kind)
        require(not differ(va, vb), "harness: {0!r} and {1!r} differ for {2}", a, b, r)
        decided = decided or (va is not None)
    try:
        z = Expr.parse(c)
    except (ZeroDivisionError, OverflowError):
        z = None
    if z is not None:
        if consistent(x, z, a, c):
            for r in recs:
                require(not differ(value(a, r, kind), value(c, r, kind)), "{0!r} and {1!r} are considered equal but differ for {2}", a, c, r)
            tags.append("same")
        else:
            tags.append("different")
    if "with" in case:
        defs = {"r": case["def"]}
        try:
            x, y = Expr.parse(case["with"][0], defs), Expr.parse(case["with"][1])
        except (ZeroDivisionError, OverflowError):
            return tags
        require(consistent(x, y, case["with"][0], case["with"][1]), "{0!r} with {1} is not recognised as {2!r}", case["with"][0], defs, case["with"][1])
        lookup(case["with"][0], case["with"][1], kind, defs)
        lookup(case["with"][1], case["with"][0], kind, defs)
        tags.append("defs")
    return tags if a != b else []
