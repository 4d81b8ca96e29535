"""Generators (CPython side). Everything is built from integer and boolean choices recorded by Hypothesis."""

import re

INF = float("inf")
NAN = float("nan")

FLOATS = ("x", "y", "z", "u", "v", "w")     # x, y, z may hold NaN and infinities; u, v are finite; w is a weight
INTS = ("i", "j", "k")
STRS = ("c", "d")
BOOLS = ("p", "q")
FIELDS = FLOATS + INTS + STRS + BOOLS
_ident = re.compile(r"'[^']*'|\"[^\"]*\"|\b[A-Za-z_][A-Za-z_0-9]*\b")


def fields_in(*exprs):
    out = []
    for e in exprs:
        if isinstance(e, str):
            for m in _ident.findall(e):
                if m in FIELDS and m not in out:
                    out.append(m)
    return out


def same_text(e):
    """Sums are the same in either order."""
    return " + ".join(sorted(e.split(" + "))) if " + " in e and "(" not in e else e


def apart(spec):
    """Without profiles of the same expression as a binning axis: the text would name both."""
    seen = [same_text(a["e"]) for a in spec["axes"] if a["t"] != "profile"]
    spec["axes"] = [a for a in spec["axes"] if a["t"] != "profile" or same_text(a["e"]) not in seen]
    return spec


class G(object):
    def __init__(self, data, tier="quick"):
        self.data = data
        self.tier = tier
        self.big = tier == "thorough"
        self.large = False          # many bins, categories and entries

    def int(self, lo, hi):
        return self.data.draw_integer(lo, hi, shrink_towards=min(max(0, lo), hi))

    def below(self, n):
        return self.data.draw_integer(0, n - 1)

    def bool(self, p=0.5):
        return self.data.draw_boolean(p)

    def choice(self, seq):
        return seq[self.data.draw_integer(0, len(seq) - 1)]

    def pick(self, *pairs):
        """Weighted choice between (weight, value) pairs."""
        total = sum(w for w, _ in pairs)
        n = self.data.draw_integer(0, total - 1)
        for w, v in pairs:
            if n < w:
                return v
            n -= w

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def sample(self, seq, n):
        seq = list(seq)
        out = []
        for _ in range(min(n, len(seq))):
            out.append(seq.pop(self.below(len(seq))))
        return out

    def perm(self, n):
        return self.sample(range(n), n)

    def list(self, fcn, lo, hi):
        return [fcn() for _ in range(self.int(lo, hi))]

    # ------------------------------------------------------------ values

    def quarter(self, lo=-12, hi=12):
        return self.int(lo, hi) / 4.0

    def fvalue(self, nan=True, inf=True, big=True):
        k = self.below(24)
        if k == 23 and nan:
            return NAN
        if k == 22 and inf:
            return self.choice((INF, -INF))
        if k == 21 and big:
            return self.choice((1e9, -1e9, 2147483648.0, -2147483649.0, 1099511627776.0, -1e300, 1e300, 100.0))
        return self.quarter()

    def ivalue(self, big=False):
        if big and self.below(12) == 11:
            return self.choice((2147483647, 2147483648, -2147483648, -2147483649, 4294967296, -4294967297, 9223372036854775807, -9223372036854775808, 127, -128, 255, 32767))
        return self.int(-4, 6)

    def svalue(self):
        if self.below(7) == 6:
            # categories that look like something else
            return self.choice(("1", "2.5", "NaN", "None", "True", "-1", "it's", 'a"b', "x/y", "{NaN}", "\u00e9", "a\\b", "a ", " a", "A", "z  z", "the same long beginning, then one", "the same long beginning, then two", "%s1" % ("k" * 70), "%s2" % ("k" * 70)))
        return self.choice(("a", "b", "c", "aa", "", "B", "z z"))

    def wvalue(self, nan=True, neg=True):
        k = self.below(20)
        if k == 19 and nan:
            return NAN
        if k >= 16 and neg:
            return -self.int(1, 8) / 4.0
        return self.int(0, 12) / 4.0

    def column(self, name, n, nan=True, inf=True, big=True, wnan=True, wneg=True, ibig=False):
        if name in ("x", "y", "z"):
            return [self.fvalue(nan, inf, big) for _ in range(n)]
        if name in ("u", "v"):
            return [self.quarter() for _ in range(n)]
        if name == "w":
            return [self.wvalue(wnan, wneg) for _ in range(n)]
        if name in INTS:
            return [self.ivalue(ibig) for _ in range(n)]
        if name in STRS:
            return [self.svalue() for _ in range(n)]
        return [self.bool() for _ in range(n)]

    def data_for(self, names, lo=0, hi=10, **opts):
        if self.large and hi >= 4:
            return large_data(self, names, **opts)
        n = self.int(lo, hi)
        out = {"cols": dict((f, self.column(f, n, **opts)) for f in names), "n": n}
        if n > 1 and self.bool(0.25):
            out["chunk"] = self.choice((1, 1, 2, 3))
        return out

    # ------------------------------------------------------------ axes

    def flows(self):
        return self.bool(0.75), self.bool(0.75), self.bool(0.75), self.bool(0.75)

    def fexpr(self, pool):
        """A numeric expression of dyadic values over the float fields in pool (exact in floating point)."""
        f = self.choice(pool)
        g = self.choice(pool)
        return self.pick((12, f), (1, "%s + 1" % f), (1, "2*%s" % f), (1, "-%s" % f), (1, "%s - 0.5" % f),
                         (1, "%s + %s" % (f, g) if f != g else f), (1, "%s - %s" % (f, g) if f != g else f), (1, "abs(%s)" % f), (1, "%s/2" % f))

    def a_bin(self, e):
        n = self.int(0, 5)
        lo = self.int(-4, 2) / 2.0
        wid = self.choice((1.0, 0.5, 0.25, 2.0))
        if self.bool(0.15):
            # edges that are not floating point numbers (and not near any of the values, which are multiples of 1/8)
            lo, wid = self.choice((0.02, -0.98, -0.38, 0.32)), self.choice((0.1, 0.3, 0.7))
        u, o, N, cl = self.flows()
        if n == 0 and not (u or o or N):
            n = 1
        return {"t": "bin", "e": e, "n": n, "lo": lo, "hi": lo + n * wid, "u": u, "o": o, "N": N, "cl": cl}

    def a_split(self, e):
        edges = [k / 2.0 for k in self.sample(range(-4, 5), self.int(1, 5))]
        if self.bool(0.15):
            edges = [k * 0.1 + 0.02 for k in self.sample(range(-15, 16), self.int(1, 5))]
        u, o, N, cl = self.flows()
        if len(edges) == 1 and not (u or o or N):
            u = True
        if self.bool(0.8):
            edges = sorted(edges)
        return {"t": "split", "e": e, "edges": edges, "u": u, "o": o, "N": N, "cl": cl}

    def a_intbin(self, e):
        lo = self.int(-3, 2)
        u, o, _, _ = self.flows()
        return {"t": "intbin", "e": e, "min": lo, "max": lo + self.int(0, 4), "u": u, "o": o}

    def a_groupbin(self, e):
        _, _, N, cl = self.flows()
        if self.bool(0.15) and not any(f in e for f in "xyz"):
            return {"t": "groupbin", "e": e, "w": self.choice((0.1, 0.3, 0.7)), "org": self.choice((0.02, -0.38, 100.02)), "N": N, "cl": cl}
        return {"t": "groupbin", "e": e, "w": self.choice((1.0, 0.5, 2.0)), "org": self.choice((0.0, 0.25, -1.0, 0.5)), "N": N, "cl": cl}

    def a_groupby(self, e):
        return {"t": "groupby", "e": e}

    def a_cut(self, e):
        return {"t": "cut", "e": e}

    def a_profile(self, e):
        return {"t": "profile", "e": e}

    def cutexpr(self, finite=True):
        f = self.choice(("u", "v")) if finite else self.choice(("x", "y", "u"))
        return self.pick((3, "p"), (3, "%s > 0" % f), (1, "%s <= 0.5" % f), (1, "i == 1"), (1, "c == 'a'"), (1, "u < v"), (1, "not q"), (1, "p and %s > 0" % f), (1, "q or i >= 2"), (1, "c in {'a', 'b'}"))

    def axis(self, kind, used, pool=("x", "y", "z", "u", "v")):
        """An axis of the given kind whose expression is not one of those in used."""
        for _ in range(20):
            if kind in ("bin", "split", "groupbin"):
                a = getattr(self, "a_" + kind)(self.fexpr(pool))
            elif kind == "intbin":
                a = self.a_intbin(self.pick((4, "i"), (2, "j"), (1, "i + 1"), (1, "i - j")))
            elif kind == "groupby":
                a = self.a_groupby(self.pick((3, "c"), (2, "d"), (2, "i"), (1, "u"), (1, "p")))
            else:
                a = self.a_cut(self.cutexpr())
            if same_text(a["e"]) not in [same_text(e) for e in used]:
                used.append(a["e"])
                return a
        return None

    def axes(self, lo, hi, kinds=("bin", "split", "intbin", "cut", "groupby", "groupbin"), used=None, pool=("x", "y", "z", "u", "v")):
        used = [] if used is None else used
        out = []
        for _ in range(self.int(lo, hi)):
            a = self.axis(self.choice(kinds), used, pool)
            if a is not None:
                out.append(a)
        return out

    def profiles(self, lo, hi, pool=("u", "v", "i", "u*v", "u + v", "2*u", "v - 1", "u*u", "j")):
        return [self.a_profile(e) for e in self.sample(pool, self.int(lo, hi))]

    def weight(self, p=0.5, nanw=True):
        if not self.bool(p):
            return None
        return self.pick((5, "w"), (1, "2*w"), (1, 2.0), (1, 0.5), (1, "w*v"), (1, "w + 1"), (1, 3), (1, 1), (1, -2.0))

    def filter(self, p=0.3):
        return self.cutexpr_filter() if self.bool(p) else None

    def cutexpr_filter(self):
        return self.pick((3, "u > 0"), (2, "p and u < 1"), (1, "i == 1"), (1, "c == 'a'"), (1, "u < v"), (1, "not (q and i > 0)"), (1, "c in {'a', 'b'}"), (1, "q or i >= 2"))

    def hist(self, lo=0, hi=3, profiles=(0, 0), weight=0.0, filter=0.0, kinds=("bin", "split", "intbin", "cut", "groupby", "groupbin"), pool=("x", "y", "z", "u", "v"), shuffle=True):
        if self.large:
            return large_spec(self, profiles[1] > 0, weight, filter)
        if hi >= 2 and self.below(60) == 59:
            # more axes (of few bins) or more profiles than usual
            if profiles[1] > 0 and self.bool(0.5):
                profiles = (5, 9)
            else:
                used = []
                axes = self.axes(1, 2, kinds, used, pool) + self.axes(3, 4, [k for k in kinds if k in ("cut", "groupby")] or kinds[:1], used, pool)
                axes = [axes[i] for i in self.perm(len(axes))]
                return {"axes": axes + (self.profiles(*profiles) if profiles != (0, 0) else []), "weight": self.weight(weight), "filter": self.filter(filter)}
        axes = self.axes(lo, hi, kinds, pool=pool)
        profs = self.profiles(*profiles) if profiles != (0, 0) else []
        if profs and shuffle and self.bool(0.3):
            axes = [(axes + profs)[i] for i in self.perm(len(axes) + len(profs))]
        else:
            axes = axes + profs
        if not axes:
            axes = [self.axis("bin", [], pool)]
        return {"axes": axes, "weight": self.weight(weight), "filter": self.filter(filter)}


def spec_fields(*specs):
    exprs = []
    for s in specs:
        exprs += [a["e"] for a in s["axes"]] + [s.get("weight"), s.get("filter")] + [x for x in (s.get("defs") or {}).values()]
    return fields_in(*exprs)


def with_defs(g, spec, p=0.2):
    """Sometimes give one axis or profile (and nothing else) a defined name as its expression."""
    if g.bool(p):
        some = [a for a in spec["axes"] if a["t"] in ("bin", "split", "groupbin", "profile")]
        if some:
            a = g.choice(some)
            d = g.choice(("u + v", "u - 2*v", "abs(v)"))
            if not any(same_text(x["e"]) == same_text(d) for x in spec["axes"]):
                a["e"] = "r"
                spec["defs"] = {"r": d}
        if spec.get("filter") is not None and g.bool(0.4):
            spec.setdefault("defs", {"r": "u - 2*v"})
            spec["filter"] = g.choice(("r > 1", "r <= 0", "r < 2 and r >= -2"))
        if spec.get("weight") == "w" and g.bool(0.2):
            spec.setdefault("defs", {"r": "u - 2*v"})
            spec["weight"] = "w*abs(r)"
    return spec


# ---------------------------------------------------------------- many bins, categories and entries

def lcg(seed):
    state = [seed * 2862933555777941757 + 3037000493]

    def below(n):
        state[0] = (state[0] * 6364136223846793005 + 1442695040888963407) % 2**64
        return (state[0] >> 33) % n
    return below


def large_data(g, names, lo=60, hi=300, nan=True, big=True, **opts):
    """Many entries with many different values, all from one seed."""
    n = g.int(lo, hi)
    below = lcg(g.int(0, 10**6))

    def value(f):
        k = below(40)
        if f in ("x", "y", "z"):
            if k == 0 and nan:
                return NAN
            if k == 1 and nan:
                return (INF, -INF, 1e300 if big else 1e5)[below(3)]
            return below(1200) / 4.0 - 150
        if f in ("u", "v"):
            return below(1200) / 4.0 - 150
        if f == "w":
            return below(13) / 4.0
        if f in INTS:
            return below(500) - 200
        if f in STRS:
            return "abc"[k % 3] if k < 6 else "k%d" % below(400)
        return k % 2 == 0
    return {"cols": dict((f, [value(f) for _ in range(n)]) for f in names), "n": n}


def large_axis(g, kind, e):
    if kind == "bin":
        a = g.a_bin(e)
        a["n"] = g.choice((70, 130, 200, 260, 300))
        a["lo"] = g.choice((-150.0, -64.0, 0.0))
        a["hi"] = a["lo"] + a["n"] * g.choice((0.5, 1.0, 0.25))
        return a
    if kind == "split":
        a = g.a_split(e)
        step = g.choice((0.5, 1.0, 0.75))
        a["edges"] = [-100.0 + k * step for k in range(g.choice((70, 130, 200, 260)))]
        return a
    if kind == "intbin":
        a = g.a_intbin(e)
        a["max"] = a["min"] + g.choice((70, 130, 200, 260))
        return a
    return getattr(g, "a_" + kind)(e)


def large_spec(g, profiles=True, weight=0.3, filter=0.1):
    kind = g.choice(("bin", "split", "intbin", "groupby", "groupbin"))
    e = {"bin": "x", "split": "x", "groupbin": "x", "intbin": "i", "groupby": g.choice(("c", "i", "u"))}[kind]
    axes = [large_axis(g, kind, e)]
    if g.bool(0.5):
        axes.insert(g.below(2), g.choice((g.a_cut("p"), g.a_bin("v"), g.a_cut("q"))))
    if profiles:
        axes += g.profiles(0, 1, pool=("u + v", "j", "2*v"))
    return {"axes": axes, "weight": g.weight(weight), "filter": g.filter(filter)}
