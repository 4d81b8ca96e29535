from statistics import NormalDist

from core import *
from checks.c13 import records_of


def root(x):
    return math.sqrt(x) if x >= 0 else NAN


def check(case):
    spec = case["spec"]
    h = mkhist(spec)
    m = Model(spec)
    if case["data"] is not None:
        pour(h, case["data"])
        m.fill(records(case["data"]))
    before = full(h)
    cutpos = [i for i, a in enumerate(m.binned) if a["t"] == "cut"]
    axes = binned(h)
    tags = []
    for req in case["reqs"]:
        which = [cutpos[i] for i in req["cuts"]]
        keep = [i for i in range(len(axes)) if i not in which]
        args = [refer(h, axes[i], (0, 4, 5)[k]) for i, k in zip(which, req["how"])]
        opts = {}
        if not req["count"]:
            opts["count"] = False
        if req["error"] != "default":
            opts["error"] = req["error"]
        if req["level"] is not None:
            opts["level"] = tuple(req["level"]) if req["tuple"] and isinstance(req["level"], list) else req["level"]
        if req.get("np") and req["level"] is not None:
            opts["level"] = numpy.array(req["level"], dtype=numpy.float64) if isinstance(req["level"], list) else numpy.float64(req["level"])
        levels = [math.erf(math.sqrt(0.5))] if req["level"] is None else req["level"] if isinstance(req["level"], list) else [req["level"]]
        what = "fraction(%s, %s) of %r" % (", ".join(repr(a) for a in args), opts, h)
        plain, columns = h.fraction(*args, recarray=False, columns=True, **opts)
        nerr = len(levels) if req["error"] is not None else 0
        require(len(columns) == int(req["count"]) + len(which) * (1 + nerr), "{0} has columns {1}", what, columns)
        names = list(columns)
        if req["count"]:
            require(names.pop(0) == "count()", "{0} has columns {1}", what, columns)
        for i in which:
            require(names.pop(0) == axes[i].expr, "{0} has columns {1}", what, columns)
            for _ in range(nerr):
                require(names.pop(0).startswith("err(" + axes[i].expr), "{0} has columns {1}", what, columns)
        left = [axes[i] for i in keep]
        records_of(left, h.fraction(*args, **opts), plain, columns)
        denom = {}
        passed = {}
        for labels, c in m.cells.items():
            key = tuple(labels[i] for i in keep)
            denom[key] = denom.get(key, 0.0) + c.w
            for i in which:
                if labels[i] == ("k", True):
                    passed[key, i] = passed.get((key, i), 0.0) + c.w
        seen = set()
        for labels, row in walk(left, plain):
            require(labels not in seen, "{0}: bin {1} is there twice", what, labels)
            seen.add(labels)
            n = denom.get(labels, 0.0)
            want = [n] if req["count"] else []
            for i in which:
                if n > 0:
                    p = passed.get((labels, i), 0.0) / n
                    want.append(p)
                    for level in (levels if nerr else []):
                        z = NormalDist().inv_cdf((1.0 + level) / 2.0) if level else 0.0
                        if req["error"] in ("default", "normal"):
                            want.append(z * root(p * (1.0 - p) / n))
                        else:
                            want.append((p + 0.5 * z * z / n + z * root(p * (1.0 - p) / n + 0.25 * z * z / (n * n))) / (1.0 + z * z / n))
                        # a difference that is zero but for rounding
                        if want[-1] != want[-1] and abs(p * (1.0 - p) / n) < 1e-9:
                            want[-1] = row[len(want) - 1]
                else:
                    want += [0.0] * (1 + nerr)
            require(len(row) == len(want), "{0}: row {1} for columns {2}", what, row, columns)
            for x, y, nm in zip(row, want, columns):
                require(near(x, y, 1e-7 if nm.startswith("err(") else 1e-9), "{0}: bin {1} has {2} = {3} instead of {4}", what, labels, nm, x, y)
        for labels in denom:
            require(labels in seen, "{0}: bin {1} is missing", what, labels)
        if any(n > 0 for n in denom.values()):
            tags.append("error-%s" % req["error"])
            if len(which) > 1:
                tags.append("several-cuts")
            if len(which) < len(cutpos):
                tags.append("other-cuts-left")
            if any(axes[i].__class__.__name__.startswith("group") for i in keep):
                tags.append("groups")
            if m.profiles:
                tags.append("profiles")
            if m.weighted:
                tags.append("weighted")
    same(full(h)[0], before[0], "the histogram after fraction()")
    require(full(h)[1:] == before[1:], "fraction() changed the histogram")
    for fcn, why in [(lambda: h.fraction("zz"), "an unknown cut"), (lambda: h.fraction(hax.cut("zz")), "an unknown cut"), (lambda: h.fraction(axes[cutpos[0]], zz=True), "an unknown option")] + [(lambda a=a: h.fraction(a), "an axis that is not a cut") for a in h.axis if not isinstance(a, hax.cut)]:
        require(rejects(fcn, (IndexError, TypeError, ValueError)), "fraction with {0} is accepted by {1}", why, h)
    for name in ("Normal", "wald", True, "clopper-pearson", "agresti-coull", "feldman-cousins", "jeffrey", "bayesian-uniform"):
        # an interval that is not available must not be replaced by something else
        for recarray in (True, False):
            require(rejects(lambda: h.fraction(axes[cutpos[0]], error=name, recarray=recarray), (ValueError, TypeError, NotImplementedError)) or not m.cells, "fraction with error={0!r} is accepted", name)
    return tags
