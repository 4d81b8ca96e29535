"""Runs under the interpreter of the code under test (PyPy): builds histbook objects from JSON
case descriptions and holds the pure-Python reference model they are compared with.

Only public histbook API is used, so that a rewrite of internals is invisible here."""

import collections
import json
import math
import os
import re
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import numpy

import histbook
import histbook.axis as hax
from histbook import Hist, Book
from histbook.axis import Interval, IntervalNaN, GroupAxis, FixedAxis, ProfileAxis

assert os.path.realpath(histbook.__file__).startswith(os.path.realpath(REPO) + "/"), histbook.__file__

INF = float("inf")
NAN = float("nan")


class Violation(Exception):
    """The property does not hold for this case."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def rejects(fcn, kinds=Exception):
    """True if fcn() raises (one of) kinds."""
    try:
        fcn()
    except kinds:
        return True
    return False

################################################################ building

KINDS = {"f": ("x", "y", "z", "u", "v", "w"), "i": ("i", "j", "k"), "s": ("c", "d"), "b": ("p", "q")}
DEFAULTDTYPE = {}
for _k, _names in KINDS.items():
    for _n in _names:
        DEFAULTDTYPE[_n] = {"f": "f8", "i": "i8", "s": None, "b": "?"}[_k]


def b(x):
    return bool(x)


def mkaxis(s):
    t = s["t"]
    if t == "bin":
        return hax.bin(s["e"], s["n"], s["lo"], s["hi"], underflow=b(s["u"]), overflow=b(s["o"]), nanflow=b(s["N"]), closedlow=b(s["cl"]))
    elif t == "intbin":
        return hax.intbin(s["e"], s["min"], s["max"], underflow=b(s["u"]), overflow=b(s["o"]))
    elif t == "split":
        return hax.split(s["e"], s["edges"], underflow=b(s["u"]), overflow=b(s["o"]), nanflow=b(s["N"]), closedlow=b(s["cl"]))
    elif t == "cut":
        return hax.cut(s["e"])
    elif t == "groupby":
        return hax.groupby(s["e"])
    elif t == "groupbin":
        return hax.groupbin(s["e"], s["w"], origin=s["org"], nanflow=b(s["N"]), closedlow=b(s["cl"]))
    elif t == "profile":
        return hax.profile(s["e"])
    raise AssertionError(t)


def mkhist(s, **more):
    opts = {}
    if s.get("weight") is not None:
        opts["weight"] = s["weight"]
    if s.get("filter") is not None:
        opts["filter"] = s["filter"]
    if s.get("defs"):
        opts["defs"] = dict(s["defs"])
    if s.get("att"):
        opts["attachment"] = json.loads(json.dumps(s["att"]))
    if s.get("sys") is not None:
        opts["systematic"] = list(s["sys"])
    axes = more.pop("axes", None)
    opts.update(more)
    return Hist(*([mkaxis(a) for a in s["axes"]] if axes is None else axes), **opts)


def mkarray(name, values, dtype=None):
    if dtype is None:
        dtype = DEFAULTDTYPE[name]
    if dtype is None:
        return numpy.array(values, dtype="U%d" % max([1] + [len(x) for x in values]))
    return numpy.array(values, dtype=dtype)


def mkdata(data, only=None, dt=None):
    """{"cols": {name: [values]}} -> dict of arrays."""
    dt = dt or data.get("dt") or {}
    return dict((n, mkarray(n, v, dt.get(n))) for n, v in data["cols"].items() if only is None or n in only)


def records(data):
    cols = data["cols"]
    names = list(cols)
    if not names:
        return [{} for _ in range(data.get("n", 0))]
    return [dict(zip(names, row)) for row in zip(*[cols[n] for n in names])]


def subdata(data, idx):
    return {"cols": dict((n, [v[i] for i in idx]) for n, v in data["cols"].items()), "dt": data.get("dt") or {}}


def pour(h, data):
    """Fill with data, maybe a few entries at a time: combinations of categories that do not occur in one call are then absent from nested groups."""
    chunk = data.get("chunk")
    n = len(records(data))
    if not chunk or not data["cols"] or n == 0:
        h.fill(mkdata(data))
    else:
        for i in range(0, n, chunk):
            h.fill(mkdata(subdata(data, range(i, min(i + chunk, n)))))


def concat(*datas):
    out = {"cols": {}, "dt": datas[0].get("dt") or {}}
    for n in datas[0]["cols"]:
        out["cols"][n] = [x for d in datas for x in d["cols"][n]]
    return out


def datalen(data):
    for v in data["cols"].values():
        return len(v)
    return data.get("n", 0)

################################################################ ordinary evaluation of expressions


def _sign(x):
    return float((x > 0) - (x < 0)) if x == x else x


def _where(c, a, b):
    return a if c else b


ENV = {"where": _where, "abs": abs, "fabs": abs, "max": max, "min": min, "fmax": max, "fmin": min,
       "pi": math.pi, "Pi": math.pi, "e": math.e, "E": math.e, "inf": INF, "Inf": INF, "infinity": INF, "Infinity": INF,
       "nan": NAN, "NaN": NAN, "Nan": NAN, "sqrt": math.sqrt, "sign": _sign, "floor": math.floor, "ceil": math.ceil, "hypot": math.hypot,
       "__builtins__": {"True": True, "False": False, "None": None, "set": set}}
_code = {}


def ev(expr, rec, defs=None):
    if not isinstance(expr, str):
        return expr
    code = _code.get(expr)
    if code is None:
        if len(_code) > 20000:
            _code.clear()
        code = _code[expr] = compile(expr.strip(), "<expr>", "eval")
    env = dict(ENV)
    env.update(rec)
    if defs:
        for n, x in defs.items():
            if n in code.co_names:
                env[n] = ev(x, rec) if isinstance(x, str) else x
    return eval(code, env)

################################################################ labels


def num(x):
    x = float(x)
    if x != x or x in (INF, -INF):
        return x
    return round(x, 9) + 0.0


def iv(lo, hi, cl, ch):
    return ("iv", num(lo), num(hi), bool(cl), bool(ch))


def canon(label):
    """Canonical form of a bin label given by the library."""
    if isinstance(label, IntervalNaN):
        return "nan"
    elif isinstance(label, Interval):
        return iv(label.low, label.high, label.closedlow, label.closedhigh)
    elif isinstance(label, numpy.generic):
        return canon(label.item())
    elif isinstance(label, (bool, int, float, str)):
        return ("k", label)
    else:
        raise Violation("unexpected kind of bin label: %r" % (label,))


def inside(lab, v):
    """Does the value belong to the set the label denotes?"""
    if lab == "nan":
        return v != v
    if lab[0] == "k":
        return v == lab[1]
    _, lo, hi, cl, ch = lab
    return (lo < v or (cl and lo == v)) and (v < hi or (ch and v == hi))


DROP = object()


def edges_of(a):
    if a["t"] == "bin":
        n = a["n"]
        return [float(i) * (a["hi"] - a["lo"]) / n + a["lo"] for i in range(n)] + [a["hi"]] if n > 0 else [a["lo"]]
    return sorted(float(x) for x in (a["edges"] if isinstance(a["edges"], (list, tuple)) else [a["edges"]]))


def fixed_labels(a):
    """All labels of a fixed axis, in order."""
    t = a["t"]
    if t == "cut":
        return [("k", False), ("k", True)]
    if t == "intbin":
        return ([iv(-INF, a["min"], True, False)] if a["u"] else []) + [("k", i) for i in range(a["min"], a["max"] + 1)] + ([iv(a["max"], INF, False, True)] if a["o"] else [])
    e = edges_of(a)
    cl = bool(a["cl"])
    out = []
    if a["u"]:
        out.append(iv(-INF, e[0], True, not cl))
    for lo, hi in zip(e[:-1], e[1:]):
        out.append(iv(lo, hi, cl, not cl))
    if a["o"]:
        out.append(iv(e[-1], INF, cl, True))
    if a["N"]:
        out.append("nan")
    return out


def classify(a, v):
    """The label the value belongs to, or DROP."""
    t = a["t"]
    if t == "groupby":
        return ("k", v)
    if t == "cut":
        return ("k", bool(v))
    if t == "intbin":
        if v < a["min"]:
            return iv(-INF, a["min"], True, False) if a["u"] else DROP
        if v > a["max"]:
            return iv(a["max"], INF, False, True) if a["o"] else DROP
        return ("k", int(v))
    cl = bool(a["cl"])
    if v != v:
        return "nan" if a["N"] else DROP
    if t == "groupbin":
        w, org = float(a["w"]), float(a["org"])
        if v in (INF, -INF):
            lo = v
        elif cl:
            lo = math.floor((v - org) / w) * w + org
        else:
            lo = (math.ceil((v - org) / w) - 1) * w + org
        return iv(lo, lo + w, cl, not cl)
    e = edges_of(a)
    if v < e[0] or (v == e[0] and not cl):
        return iv(-INF, e[0], True, not cl) if a["u"] else DROP
    if v > e[-1] or (v == e[-1] and cl):
        return iv(e[-1], INF, cl, True) if a["o"] else DROP
    for lo, hi in zip(e[:-1], e[1:]):
        if (lo < v < hi) or (cl and v == lo) or (not cl and v == hi):
            return iv(lo, hi, cl, not cl)
    raise AssertionError((a, v))

################################################################ the reference model of a histogram


class Cell(object):
    __slots__ = ("n", "w", "w2", "wx", "wx2")

    def __init__(self, nprof):
        self.n = 0
        self.w = 0.0
        self.w2 = 0.0
        self.wx = [0.0] * nprof
        self.wx2 = [0.0] * nprof

    def add(self, other, scale=1.0):
        self.n += other.n
        self.w += scale * other.w
        self.w2 += scale * other.w2
        for i in range(len(self.wx)):
            self.wx[i] += scale * other.wx[i]
            self.wx2[i] += scale * other.wx2[i]


def split_axes(spec):
    g = [a for a in spec["axes"] if a["t"] in ("groupby", "groupbin")]
    f = [a for a in spec["axes"] if a["t"] in ("bin", "intbin", "split", "cut")]
    p = [a for a in spec["axes"] if a["t"] == "profile"]
    return g, f, p


class Model(object):
    """What a histogram should hold: label tuple -> sums. Written from the documentation, record by record."""

    def __init__(self, spec):
        self.spec = spec
        g, f, p = split_axes(spec)
        self.binned = g + f          # order in which a histogram presents its axes
        self.profiles = p
        self.weighted = spec.get("weight") is not None or spec.get("filter") is not None
        self.cells = {}
        self.seen = set()            # categories of all records, even if they fall outside of the other axes
        self.ngroup = len(g)

    def fill(self, recs):
        defs = self.spec.get("defs")
        for r in recs:
            labels = []
            for i, a in enumerate(self.binned[:self.ngroup]):
                self.seen.add((i, classify(a, ev(a["e"], r, defs))))
            for a in self.binned:
                lab = classify(a, ev(a["e"], r, defs))
                if lab is DROP:
                    break
                labels.append(lab)
            else:
                w = self.spec.get("weight")
                w = 1.0 if w is None else float(ev(w, r, defs))
                if self.spec.get("filter") is not None and not ev(self.spec["filter"], r, defs):
                    w = 0.0
                if w != w:
                    w = 0.0
                c = self.cell(tuple(labels))
                c.n += 1
                c.w += w
                c.w2 += w * w
                for i, a in enumerate(self.profiles):
                    x = float(ev(a["e"], r, defs))
                    c.wx[i] += w * x
                    c.wx2[i] += w * x * x
        return self

    def cell(self, labels):
        c = self.cells.get(labels)
        if c is None:
            c = self.cells[labels] = Cell(len(self.profiles))
        return c

    def derived(self, spec):
        return Model(spec)

    def plus(self, other):
        out = Model(self.spec)
        out.seen = self.seen | other.seen
        for m in (self, other):
            for k, c in m.cells.items():
                out.cell(k).add(c)
        return out

    def times(self, s):
        out = Model(self.spec)
        out.seen = set(self.seen)
        for k, c in self.cells.items():
            out.cell(k).add(c, float(s))
        return out

    def row(self, c):
        count = c.w
        err = math.sqrt(c.w2 if self.weighted else c.w) if (c.w2 if self.weighted else c.w) >= 0 else NAN
        row = [count, err]
        good = c.w > 0
        eff = (c.w * c.w / c.w2 if self.weighted else c.w) if good else 0.0
        row.append(eff)
        for wx, wx2 in zip(c.wx, c.wx2):
            if good:
                mean = wx / c.w
                row.append(mean)
                row.append(math.sqrt(max(wx2 / c.w - mean * mean, 0.0) / eff))
            else:
                row += [0.0, 0.0]
        return tuple(row)

    def view(self):
        out = {}
        for k, c in self.cells.items():
            r = self.row(c)
            if any(x != 0 for x in r):
                out[k] = r
        return out

################################################################ what a real histogram holds


def profs(h):
    return [a for a in h.axis if isinstance(a, ProfileAxis)]


def binned(h):
    return [a for a in h.axis if not isinstance(a, ProfileAxis)]


def walk(axes, content, labels=()):
    """Yields (labels, row) for each bin of a table in the recarray=False form."""
    if len(axes) > 0 and isinstance(axes[0], GroupAxis):
        require(isinstance(content, dict), "content of a group axis is {0}, not a dict", type(content))
        pairs = axes[0].items(content)
        require(len(pairs) == len(content), "group axis lists {0} items of {1}", len(pairs), len(content))
        for lab, sub in pairs:
            for y in walk(axes[1:], sub, labels + (canon(lab),)):
                yield y
    else:
        keys = [[canon(k) for k in a.keys()] for a in axes]
        shape = tuple(len(k) for k in keys)
        require(tuple(content.shape[:-1]) == shape, "table block has shape {0} for labels of shape {1}", content.shape, shape)
        flat = content.reshape((-1, content.shape[-1])).tolist()
        i = 0
        for combo in product(keys):
            yield labels + combo, tuple(flat[i])
            i += 1


def product(keys):
    if len(keys) == 0:
        return [()]
    rest = product(keys[1:])
    return [(k,) + r for k in keys[0] for r in rest]


def view(h):
    """label tuple -> (count, err, effcount, mean, err, ...), bins that hold nothing left out."""
    ps = profs(h)
    content, columns = h.table(*ps, effcount=True, recarray=False, columns=True)
    require(len(columns) == 3 + 2 * len(ps), "table has columns {0}", columns)
    out = {}
    for labels, row in walk(binned(h), content):
        require(labels not in out, "label {0} appears twice", labels)
        if any(x != 0 for x in row):
            out[labels] = row
    return out


def near(a, b, tol):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def rownear(ra, rb):
    if len(ra) != len(rb):
        return False
    for i, (x, y) in enumerate(zip(ra, rb)):
        # errors of profile means are roots of differences of rounded sums
        if i >= 4 and i % 2 == 0:
            scale = max(1.0, abs(ra[i - 1]))
            if not near(x, y, 3e-7 * scale):
                return False
        elif not near(x, y, 1e-9):
            return False
    return True


def same(got, want, what):
    """Compare two views."""
    if got == want:
        return
    for k in want:
        if k not in got:
            raise Violation("%s: bin %r should hold %r but is empty" % (what, k, want[k]))
        if not rownear(got[k], want[k]):
            raise Violation("%s: bin %r holds %r instead of %r" % (what, k, got[k], want[k]))
    for k in got:
        if k not in want:
            raise Violation("%s: bin %r should be empty but holds %r" % (what, k, got[k]))


def labels_ok(h, spec, what):
    """The labels of the histogram's fixed axes are those of the specification."""
    g, f, p = split_axes(spec)
    axes = binned(h)
    require(len(axes) == len(g) + len(f), "{0}: has {1} axes instead of {2}", what, len(axes), len(g) + len(f))
    for a, s in zip(axes[len(g):], f):
        require([canon(k) for k in a.keys()] == fixed_labels(s), "{0}: axis {1} has labels {2} instead of {3}", what, a, [canon(k) for k in a.keys()], fixed_labels(s))


def check_hist(h, spec, recs, what):
    labels_ok(h, spec, what)
    same(view(h), Model(spec).fill(recs).view(), what)


def full(h):
    """Everything observable about a histogram, for before/after comparisons."""
    return (view(h), repr(h), json.dumps(h.attachment, sort_keys=True, default=str), json.dumps(h.defs, sort_keys=True, default=str), tuple(h.fields))


def jsonround(h):
    return type(h).fromjson(json.loads(json.dumps(h.tojson())))


def nlabels(v):
    return len(v)


RESPELL = {"u + v": "v + u", "u - 2*v": "-2*v + u", "abs(v)": "abs(v)", "2*u": "u*2", "x + 1": "1 + x", "u*v": "v*u", "u*u": "u*u", "v - 1": "-1 + v", "y + 1": "1 + y", "i + 1": "1 + i"}


def refer(h, a, how, defs=None):
    """An axis of h, referred to in one of several equivalent ways."""
    how = how % 6
    index = [i for i, x in enumerate(h.axis) if x is a]
    require(len(index) == 1, "harness: axis {0} of {1}", a, h)
    index = index[0]
    if how == 0:
        return a
    if how == 1:
        return a.copy()
    if how == 2:
        return index
    if how == 3:
        return index - len(h.axis)
    if how == 4:
        e = (defs or {}).get(a.expr, a.expr)
        return RESPELL.get(e, "(%s)" % e)
    return a.expr
