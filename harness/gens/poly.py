"""Polynomials (with quotients and function calls) and logical formulas in structured form, written as text in many
algebraically equal ways."""

from fractions import Fraction as F

NAMES = ("u", "v", "i", "j")


def text(c):
    """Source text of a dyadic coefficient."""
    c = F(c)
    return str(c.numerator) if c.denominator == 1 else repr(float(c))


class Poly(object):
    """terms: {((atom, power), ...): coefficient}; atoms are hashable trees."""

    def __init__(self, g):
        self.g = g

    # ---------------------------------------------------------- structure

    def atom(self, depth):
        g = self.g
        if depth <= 0 or g.bool(0.75):
            return ("n", g.choice(NAMES))
        k = g.below(6)
        if k == 0:
            return ("f2", g.choice(("max", "min", "hypot", "arctan2")), self.frozen(depth - 1), self.frozen(depth - 1))
        if k == 1:
            return ("inv", self.frozen(depth - 1, least=2))
        if k == 2:
            return ("op", g.choice(("%", "//")), self.frozen(depth - 1), self.frozen(depth - 1, least=1))
        return ("f1", g.choice(("sqrt", "exp", "abs", "sin", "floor")), self.frozen(depth - 1))

    def frozen(self, depth, least=1):
        return tuple(sorted(self.make(depth, least).items(), key=repr))

    def make(self, depth, least=1):
        g = self.g
        out = {}
        n = g.pick((2, 1), (4, 2), (3, 3), (1, 4))
        for _ in range(20):
            if len(out) >= max(n, least):
                break
            mono = {}
            for _ in range(g.pick((2, 0), (5, 1), (4, 2), (1, 3))):
                a = self.atom(depth)
                if a[0] == "inv":
                    if a not in mono:
                        mono[a] = 1
                else:
                    mono[a] = mono.get(a, 0) + g.pick((8, 1), (2, 2), (2, -1), (1, -2))
            if out and g.bool(0.25):
                # nearly a like term
                mono = dict(g.choice(sorted(out, key=repr)))
                a = g.choice(sorted(mono, key=repr)) if mono and g.bool() else ("n", g.choice(NAMES))
                if a[0] != "inv":
                    mono[a] = mono.get(a, 0) + g.choice((1, -1))
            mono = tuple(sorted(((a, p) for a, p in mono.items() if p != 0), key=repr))
            c = F(g.choice((1, 2, -1, 3, -2, 4, 1, -3))) * g.pick((4, F(1)), (1, F(1, 2)), (1, F(1, 4)))
            if mono not in out:
                out[mono] = c
        k = 0
        while len(out) < least:
            out[((("n", NAMES[k]), 1),)] = F(1)
            k += 1
        return out

    def mutate(self, p):
        """A polynomial that differs in one place."""
        g = self.g
        p = dict(p)
        mono = g.choice(sorted(p, key=repr))
        c = p.pop(mono)
        k = g.below(6)
        if k == 0:
            p[mono] = c + g.choice((1, -1, F(1, 2)))
        elif k == 1:
            p[mono] = -c
        elif k == 2:
            d = dict(mono)
            a = ("n", g.choice(NAMES))
            if mono and g.bool():
                a = g.choice([a for a, _ in mono if a[0] != "inv"] or [a])
            d[a] = d.get(a, 0) + g.choice((1, -1))
            m2 = tuple(sorted(((a, q) for a, q in d.items() if q != 0), key=repr))
            p[m2] = p.get(m2, F(0)) + c
        elif k == 3 and mono:
            d = dict(mono)
            a = g.choice(sorted(d, key=repr))
            if a[0] == "n":
                n = d.pop(a)
                b = ("n", g.choice([x for x in NAMES if x != a[1]]))
                d[b] = d.get(b, 0) + n
            elif a[0] == "f1":
                n = d.pop(a)
                d[("f1", {"sqrt": "abs", "exp": "sin", "abs": "exp", "sin": "abs", "floor": "abs"}[a[1]], a[2])] = n
            elif a[0] == "f2":
                n = d.pop(a)
                d[("f2", a[1], a[3], a[2])] = n
            else:
                n = d.pop(a)
            m2 = tuple(sorted(((a, q) for a, q in d.items() if q != 0), key=repr))
            p[m2] = p.get(m2, F(0)) + c
        elif k == 4 and len(p) > 0:
            pass        # the term is gone
        else:
            p[mono] = c
            p[()] = p.get((), F(0)) + g.choice((1, -1, 2))
        return dict((m, c) for m, c in p.items() if c != 0)

    # ---------------------------------------------------------- writing it down

    def write(self, p, fuel=3):
        """Text of the polynomial, in parentheses wherever it is more than a factor."""
        g = self.g
        p = dict((m, c) for m, c in p.items() if c != 0)
        if not p:
            return g.choice(("0", "u - u", "0*v"))
        k = g.below(12) if fuel > 0 else 0
        if k == 8:
            return "-(%s)" % self.write(dict((m, -c) for m, c in p.items()), fuel - 1)
        if k == 9:
            return "%s*(%s)" % ("2", self.write(dict((m, c / 2) for m, c in p.items()), fuel - 1))
        if k == 10:
            # multiply and divide by a field
            a = ("n", g.choice(NAMES))
            return "(%s)/%s" % (self.write(dict((times(m, a, 1), c) for m, c in p.items()), fuel - 1), a[1])
        if k == 11:
            # factor a field out of the terms that have it
            a = ("n", g.choice(NAMES))
            have = dict((times(m, a, -1), c) for m, c in p.items() if dict(m).get(a, 0) > 0)
            rest = dict((m, c) for m, c in p.items() if dict(m).get(a, 0) <= 0)
            if have:
                t = "%s*(%s)" % (a[1], self.write(have, fuel - 1)) if g.bool() else "(%s)*%s" % (self.write(have, fuel - 1), a[1])
                if not rest:
                    return t
                return "%s + (%s)" % (t, self.write(rest, fuel - 1)) if g.bool() else "(%s) + %s" % (self.write(rest, fuel - 1), t)
        items = []
        for m, c in sorted(p.items(), key=repr):
            if fuel > 0 and g.below(6) == 5:
                d = g.choice((F(1), F(-1), F(2), F(1, 2)))
                items += [(m, c - d), (m, d)]
            else:
                items.append((m, c))
        if fuel > 0 and g.below(8) == 7:
            m = ((("n", g.choice(NAMES)), 1),)
            items += [(m, F(1)), (m, F(-1))]
        items = [items[i] for i in g.perm(len(items))]
        out = ""
        for m, c in items:
            neg = c < 0 and g.bool(0.8)
            t = self.term(m, -c if neg else c)
            if not out:
                out = ("-" if neg else "") + t
            elif fuel > 0 and g.below(5) == 4:
                # associate the other way round
                out = "%s%s + (%s)" % ("-" if neg else "", t, out)
            else:
                out = "%s %s %s" % (out, "-" if neg else "+", t)
        return out

    def factor(self, a):
        g = self.g
        if a[0] == "n":
            return a[1]
        if a[0] == "f1":
            t = self.write(dict(a[2]), 1)
            return "%s%s(%s)" % (g.choice(("", "", "math.", "numpy.")) if a[1] in ("sqrt", "exp", "sin", "floor") else "", a[1], t)
        if a[0] == "f2":
            return "%s(%s, %s)" % (a[1], self.write(dict(a[2]), 1), self.write(dict(a[3]), 1))
        if a[0] == "op":
            return "((%s) %s (%s))" % (self.write(dict(a[2]), 1), a[1], self.write(dict(a[3]), 1))
        raise AssertionError(a)

    def term(self, mono, c):
        g = self.g
        num, den = [], []
        for a, p in mono:
            if a[0] == "inv":
                den.append("(%s)" % self.write(dict(a[1]), 1))
                continue
            n = abs(p)
            if n > 1 and n <= 4 and g.bool():
                (num if p > 0 else den).append("%s**%d" % (self.factor(a), n))
            elif p == -1 and g.below(4) == 3:
                num.append("%s**-1" % self.factor(a))
            else:
                for _ in range(n):
                    (num if p > 0 else den).append(self.factor(a))
        c = F(c)
        if c == F(1, 2) and num and g.bool():
            den.append("2")
        elif c == F(1, 4) and num and g.bool():
            den.append("4")
        elif c != 1 or not num:
            if c < 0:
                num.append("(%s)" % text(c))
            else:
                num.append(text(c))
        num = [num[i] for i in g.perm(len(num))]
        den = [den[i] for i in g.perm(len(den))]
        out = num[0]
        rest = [("*", x) for x in num[1:]]
        if len(den) > 1 and not any(a[0] == "inv" for a, _ in mono) and g.bool():
            rest.append(("/", "(" + "*".join(den) + ")"))
        else:
            rest += [("/", x) for x in den]
        rest = [rest[i] for i in g.perm(len(rest))]
        for op, x in rest:
            out += op + x
        if "%" in out or "//" in out:
            pass
        return out


def times(mono, atom, power):
    d = dict(mono)
    d[atom] = d.get(atom, 0) + power
    return tuple(sorted(((a, q) for a, q in d.items() if q != 0), key=repr))


class Logic(object):
    def __init__(self, g):
        self.g = g
        self.poly = Poly(g)

    def small(self):
        """One side of a comparison."""
        g = self.g
        return self.poly.frozen(0) if g.bool(0.4) else ((((("n", g.choice(NAMES)), 1),), 1),)

    def literal(self):
        g = self.g
        k = g.below(10)
        if k < 6:
            a, b = self.small(), self.small()
            return ("cmp", g.choice(("<", "<=", "==", "!=")), a, b)
        if k < 8:
            return ("in", g.choice(("i", "j")), tuple(sorted(set(g.list(lambda: g.int(-2, 4), 1, 3)))))
        return ("p", g.choice(("p", "q")))

    def make(self, depth):
        g = self.g
        if depth <= 0 or g.bool(0.15):
            return self.literal()
        k = g.below(5)
        if k == 0:
            return ("not", self.make(depth - 1))
        return (("and", "or")[k % 2],) + tuple(self.make(depth - 1) for _ in range(g.pick((5, 2), (1, 3))))

    def mutate(self, f):
        g = self.g
        if f[0] in ("and", "or"):
            k = g.below(4)
            if k == 0:
                return ({"and": "or", "or": "and"}[f[0]],) + f[1:]
            i = g.int(1, len(f) - 1)
            return f[:i] + (self.mutate(f[i]),) + f[i + 1:]
        if f[0] == "not":
            return f[1] if g.bool() else ("not", self.mutate(f[1]))
        if f[0] == "cmp":
            k = g.below(3)
            if k == 0:
                return ("cmp", {"<": "<=", "<=": "<", "==": "!=", "!=": "=="}[f[1]], f[2], f[3])
            if k == 1:
                return ("cmp", f[1], f[3], f[2])
            return ("cmp", f[1], tuple(self.poly.mutate(dict(f[2])).items()), f[3])
        if f[0] == "in":
            return ("in", f[1], f[2] + (7,)) if g.bool() else ("not", f)
        return ("p", "q" if f[1] == "p" else "p")

    def write(self, f, fuel=3, negated=False):
        """Fully parenthesised text of f (or of its negation)."""
        g = self.g
        if fuel > 0 and g.below(8) == 7:
            return "not (%s)" % self.write(f, fuel - 1, not negated)
        if f[0] == "not":
            if g.bool():
                return self.write(f[1], fuel, not negated)
            return "not (%s)" % self.write(f[1], fuel, negated)
        if f[0] in ("and", "or"):
            if negated and g.bool(0.4):
                return "not (%s)" % self.write(f, fuel - 1, False)
            op = f[0] if not negated else {"and": "or", "or": "and"}[f[0]]
            parts = [self.write(x, fuel - 1, negated) for x in f[1:]]
            parts = [parts[i] for i in g.perm(len(parts))]
            if fuel > 0 and g.below(6) == 5:
                parts.append(parts[0])
            if len(parts) == 3 and g.bool():
                return "(%s) %s ((%s) %s (%s))" % (parts[0], op, parts[1], op, parts[2])
            return (" %s " % op).join("(%s)" % x for x in parts)
        if f[0] == "cmp":
            op, a, b = f[1], self.poly.write(dict(f[2]), 1), self.poly.write(dict(f[3]), 1)
            if negated:
                op = {"<": ">=", "<=": ">", "==": "!=", "!=": "=="}[op]
            if g.bool():
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
                a, b = b, a
            return "%s %s %s" % (a, op, b)
        if f[0] == "in":
            s = [f[2][i] for i in g.perm(len(f[2]))]
            return "%s %s {%s}" % (f[1], "not in" if negated else "in", ", ".join(str(x) for x in s))
        if negated:
            return "not " + f[1]
        return f[1] if fuel <= 0 or g.bool(0.8) else "not not " + f[1]
