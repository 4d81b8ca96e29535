from core import *


def width(a, lab):
    if a["t"] in ("groupby", "cut", "intbin"):
        return 1.0 if lab[0] == "k" else INF
    if a["t"] == "groupbin":
        return float(a["w"])
    if lab == "nan":
        return INF
    return lab[2] - lab[1]


def records_of(axes, content, plain, columns):
    """The record form must hold the same numbers under the names of the columns."""
    if isinstance(plain, dict):
        require(isinstance(content, dict) and set(content) == set(plain), "record and plain tables have different categories")
        for n in plain:
            records_of(axes[1:], content[n], plain[n], columns)
    else:
        require(content.dtype.names == tuple(columns), "record table has columns {0} instead of {1}", content.dtype.names, columns)
        require(content.shape == plain.shape[:-1], "record table has shape {0}, plain table {1}", content.shape, plain.shape)
        for i, n in enumerate(columns):
            require(numpy.array_equal(numpy.nan_to_num(content[n]), numpy.nan_to_num(plain[..., i])), "column {0} of the record table is {1}, of the plain one {2}", n, content[n], plain[..., i])


def scribble(t):
    """A table belongs to whoever asked for it: change every number in it."""
    if isinstance(t, dict):
        for x in t.values():
            scribble(x)
        for n in list(t):
            t[n] = None
    elif t.dtype.names is not None:
        for n in t.dtype.names:
            t[n] = -77.5
    else:
        t[...] = -77.5


def same_tables(x, y, what):
    if isinstance(y, dict):
        require(isinstance(x, dict) and list(x) == list(y), "{0}: categories are {1}", what, x)
        for n in y:
            same_tables(x[n], y[n], what)
    else:
        require(x.shape == y.shape and numpy.array_equal(numpy.nan_to_num(x), numpy.nan_to_num(y)), "{0}: {1} instead of {2}", what, x, y)


def check(case):
    spec = case["spec"]
    defs = spec.get("defs")
    h = mkhist(spec)
    m = Model(spec)
    if case["data"] is not None:
        pour(h, case["data"])
        m.fill(records(case["data"]))
    if case.get("scale") is not None:
        h, m = h * case["scale"], m.times(case["scale"])
    before = full(h)
    ps = profs(h)
    ng = len([a for a in m.binned if a["t"].startswith("group")])
    tags = []
    for req in case["reqs"]:
        which = req["profiles"]
        args = [refer(h, ps[i], (0, 4, 5)[k], defs) for i, k in zip(which, req["how"])]
        names = []
        if req["count"]:
            names += ["count()"] + (["err(count())"] if req["error"] else [])
        if req["effcount"]:
            names.append("effcount()")
        for i in which:
            names += [ps[i].expr] + (["err(%s)" % ps[i].expr] if req["error"] else [])
        opts = dict((k, req[k]) for k in ("count", "effcount", "error", "normalized") if not (req["default"] and req[k] == {"count": True, "effcount": False, "error": True, "normalized": False}[k]))
        what = "table(%s, %s) of %r" % (", ".join(repr(a) for a in args), opts, h)
        plain, columns = h.table(*args, recarray=False, columns=True, **opts)
        require(list(columns) == names, "{0} has columns {1}", what, columns)
        rec = h.table(*args, **opts)
        records_of(binned(h), rec, plain, columns)
        rec2, columns2 = h.table(*args, columns=True, **opts)
        require(list(columns2) == names, "{0} has columns {1}", what, columns2)

        for t in (rec, rec2):
            scribble(t)
        spoilt = h.table(*args, recarray=False, **opts)
        scribble(spoilt)
        again = h.table(*args, recarray=False, **opts)
        same_tables(again, plain, what + " after changing the tables it gave before")

        finite = lambda labels: all(width(a, lab) != INF for a, lab in zip(m.binned, labels))
        area = lambda labels: product_of(width(a, lab) for a, lab in zip(m.binned, labels))
        totals = {}
        if req["normalized"]:
            for labels, c in m.cells.items():
                if finite(labels):
                    totals[labels[:ng]] = totals.get(labels[:ng], 0.0) + c.w / area(labels)
        zero = Cell(len(ps))
        seen = set()
        for labels, row in walk(binned(h), plain):
            require(labels not in seen, "{0}: bin {1} is there twice", what, labels)
            seen.add(labels)
            full_row = m.row(m.cells.get(labels, zero))
            want = []
            if req["count"]:
                c, e = full_row[:2]
                if req["normalized"]:
                    t = totals.get(labels[:ng], 0.0)
                    if abs(t) < 1e-6:
                        c = e = None        # nothing to normalize
                    elif finite(labels):
                        c, e = c / area(labels) / t, e / area(labels) / t
                    else:
                        c, e = 0.0, 0.0
                want += [c] + ([e] if req["error"] else [])
            if req["effcount"]:
                want.append(full_row[2])
            for i in which:
                want += [full_row[3 + 2 * i]] + ([full_row[4 + 2 * i]] if req["error"] else [])
            require(len(row) == len(want), "{0}: row {1} for columns {2}", what, row, columns)
            for x, y, n in zip(row, want, names):
                tol = 3e-7 if n.startswith("err(") and n != "err(count())" else 1e-9
                require(y is None or near(x, y, tol), "{0}: bin {1} has {2} = {3} instead of {4}", what, labels, n, x, y)
        for labels in m.cells:
            require(labels in seen, "{0}: bin {1} is missing", what, labels)
        if len(m.view()):
            tags.append("plain")
            if which:
                tags.append("profiles")
            if which != sorted(which):
                tags.append("reordered")
            if req["normalized"] and req["count"] and any(abs(t) >= 1e-6 for t in totals.values()):
                tags.append("normalized")
                if any(a["t"] == "split" for a in m.binned):
                    tags.append("normalized-irregular")
            if req["effcount"] and m.weighted:
                tags.append("weighted-effcount")
    same(full(h)[0], before[0], "the histogram after table()")
    require(full(h)[1:] == before[1:], "table() changed the histogram")
    for fcn, why in [(lambda: h.table("zz"), "an unknown profile"), (lambda: h.table(hax.profile("zz")), "an unknown profile"), (lambda: h.table(zz=True), "an unknown option")] + [(lambda a=a: h.table(a), "an axis that is not a profile") for a in binned(h)]:
        require(rejects(fcn, (IndexError, TypeError, ValueError)), "table with {0} is accepted by {1}", why, h)
    return tags


def product_of(xs):
    out = 1.0
    for x in xs:
        out *= x
    return out
