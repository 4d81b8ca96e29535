from core import *
import oracle
from oracle import Skip, V, evaluate, truth


def bad(case):
    e, role = case["bad"], case["as"]
    u, v, i, j = numpy.array([1.0, 2.0]), numpy.array([0.5, -1.0]), numpy.array([1, 2]), numpy.array([0, 1])
    before = [x.copy() for x in (u, v, i, j)]

    def attempt():
        if role == "weight":
            h = Hist(hax.bin("u", 3, 0, 3), weight=e)
        elif role == "def":
            h = Hist(hax.bin("u", 3, 0, 3), hax.profile("r + 1"), defs={"r": e})
        elif role == "bin":
            h = Hist(hax.bin(e, 3, 0, 3))
        elif role == "groupbin":
            h = Hist(hax.groupbin(e, 1))
        elif role == "intbin":
            h = Hist(hax.intbin(e, 0, 3))
        elif role == "split":
            h = Hist(hax.split(e, [0, 1]))
        else:
            h = Hist(hax.bin("u", 3, 0, 3), hax.profile(e))
        h.fill(u=u, v=v, i=i, j=j, p=u > 1, q=v > 0)
        return h
    require(rejects(attempt), "unsupported expression {0!r} as {1} is accepted", e, role)
    for x, y in zip((u, v, i, j), before):
        require(bool((x == y).all()), "refused expression {0!r} changed its inputs", e)
    return ["rejected"]


def values(e, recs, defs):
    out = []
    for r in recs:
        try:
            out.append(evaluate(e, r, defs))
        except Skip:
            out.append(None)
    return out


def nowhere(fcn, e, recs, defs):
    oracle.STRICT = True
    try:
        for r in recs:
            try:
                fcn(e, r, defs)
                return False
            except Skip:
                pass
        return True
    finally:
        oracle.STRICT = False


def tol(v):
    return 3e-9 * max(1.0, abs(v.x)) + 8 * v.d + 1e-11 * v.m


def read(h, n):
    """k -> row of the table with all profiles."""
    ps = profs(h)
    out = {}
    for labels, row in walk(binned(h), h.table(*ps, effcount=True, recarray=False)):
        out.setdefault(labels[0][1], []).append((labels[1:], row))
    return out


def kind(case):
    """Predicates of floating point values."""
    e = "%s(%s)" % (case["kind"], case["arg"])
    base = case["kind"].split(".")[-1]
    xs = [num(x) for x in case["x"]]
    want = [x != x if base == "isnan" else abs(x) == INF if base == "isinf" else abs(x) < INF for x in xs]
    n = len(xs)
    a = Hist(hax.groupby("k"), hax.cut(e))
    b = Hist(hax.groupby("k"), hax.profile("where(%s, 1.5, 2)" % e), hax.profile("3*%s + 0.5" % e))
    arrays = {"k": numpy.arange(n), "x": numpy.array(xs)}
    with numpy.errstate(all="ignore"):
        Book(a=a, b=b).fill(arrays) if case["not"] else [h.fill(arrays) for h in (a, b)]
    for k in range(n):
        got = a[k][:, 0].tolist()
        require(got == ([0.0, 1.0] if want[k] else [1.0, 0.0]), "{0} of x={1} as a cut is {2}", e, xs[k], got)
        row = b.table(*profs(b), recarray=False)[k].tolist()
        require(abs(row[2] - (1.5 if want[k] else 2.0)) < 1e-12 and abs(row[4] - (3.5 if want[k] else 0.5)) < 1e-12, "where({0}, 1.5, 2) and 3*{0} + 0.5 of x={1} are {2}", e, xs[k], row)
    return ["kind"]


def check(case):
    if "bad" in case:
        return bad(case)
    if "kind" in case:
        return kind(case)
    exprs, defs, data = case["exprs"], case["defs"], case["data"]
    recs = records(data)
    n = len(recs)
    arrays = mkdata(data)
    arrays["k"] = numpy.arange(n)
    want = [values(e, recs, defs) for e in exprs]
    opts = {"defs": dict(defs)} if defs else {}
    distinct = []
    for e in exprs:
        if e not in distinct:
            distinct.append(e)

    def build():
        # one histogram averages the expressions, one is weighted by the last, one is binned by the first
        out = [Hist(hax.groupby("k"), *[hax.profile(e) for e in distinct], **opts)]
        out.append(Hist(hax.groupby("k"), hax.profile(exprs[0]), weight=exprs[-1], **opts))
        out.append(Hist(hax.groupby("k"), hax.split(exprs[0], case["edges"]), *( [hax.profile(exprs[-1])] if case["w"] else []), **opts))
        if case["logic"] is not None:
            out.append(Hist(hax.groupby("k"), hax.profile("where(%s, 1, 2)" % case["logic"]), **opts))
        return out

    try:
        hists = build()
        with numpy.errstate(all="ignore"):
            for h in build():
                h.fill(arrays)
    except Exception as err:
        if isinstance(err, ValueError) and "negative integer power" in str(err):
            return []        # numpy's refusal
        # what can't be evaluated for any record (a division by the constant zero, a complex root) may be refused as a whole, provided that it can't
        if any(nowhere(evaluate, e, recs, defs) for e in exprs + [x for x in defs.values() if isinstance(x, str)]) or (case["logic"] and nowhere(truth, case["logic"], recs, defs)):
            return []
        raise
    before = dict((f, x.copy()) for f, x in arrays.items())
    with numpy.errstate(all="ignore"):
        for h in hists:
            h.fill(arrays)
        for f, x in arrays.items():
            require(bool((x == before[f]).all()), "filling with {0} changed the array {1}", exprs, f)
        if case["twin"]:
            others = build()
            book = Book(**dict(("h%d" % i, h) for i, h in enumerate(others)))
            book.fill(arrays)
        else:
            others = []
    checked = 0
    for hs, how in ((hists, ""), (others, " (in a book)")):
        if not hs:
            continue
        rows = read(hs[0], n)
        for k in range(n):
            _, row = rows[k][0]
            require(row[0] == 1.0, "count of record {0} is {1}{2}", k, row[0], how)
            for i, e in enumerate(distinct):
                v = want[exprs.index(e)][k]
                if v is not None:
                    checked += 1
                    require(abs(row[3 + 2 * i] - v.x) <= tol(v), "{0!r} is {1!r} instead of {2!r} for {3} with definitions {4}{5}", e, row[3 + 2 * i], v.x, recs[k], defs, how)
        rows = read(hs[1], n)
        for k in range(n):
            w, v = want[-1][k], want[0][k]
            if w is None:
                continue
            _, row = rows[k][0]
            require(abs(row[0] - w.x) <= tol(w), "weight {0!r} is {1!r} instead of {2!r} for {3} with definitions {4}{5}", exprs[-1], row[0], w.x, recs[k], defs, how)
            if v is not None and w.x > 1e-3 and w.d < 1e-9:
                require(abs(row[3] - v.x) <= 10 * tol(v), "{0!r} weighted by {1!r} is {2!r} instead of {3!r} for {4}{5}", exprs[0], exprs[-1], row[3], v.x, recs[k], how)
        rows = read(hs[2], n)
        for k in range(n):
            v, l = want[0][k], want[-1][k]
            if v is None or (v.d and any(abs(v.x - x) <= 4 * tol(v) for x in case["edges"])) or any(0 < abs(v.x - x) < 1e-9 for x in case["edges"]):
                continue
            hit = [(labels, row) for labels, row in rows[k] if row[0] != 0]
            require(len(hit) == 1 and hit[0][1][0] == 1.0, "record {0} of {1!r} is in bins {2}{3}", k, exprs[0], hit, how)
            require(inside(hit[0][0][0], v.x), "{0!r} = {1!r} is binned in {2} for {3}{4}", exprs[0], v.x, hit[0][0], recs[k], how)
            if case["w"] and l is not None:
                require(abs(hit[0][1][3] - l.x) <= tol(l), "{0!r} is {1!r} instead of {2!r} in the bin of {3!r} for {4}{5}", exprs[-1], hit[0][1][3], l.x, exprs[0], recs[k], how)
        if case["logic"] is not None:
            rows = read(hs[3], n)
            for k in range(n):
                try:
                    t = truth(case["logic"], recs[k], defs)
                except Skip:
                    continue
                require(rows[k][0][1][3] == (1 if t else 2), "where({0}, 1, 2) is {1} for {2} with {3}{4}", case["logic"], rows[k][0][1][3], recs[k], defs, how)
                checked += 1
    tags = []
    if checked:
        tags.append("values")
        if defs:
            tags.append("defs")
        if len(distinct) > 1:
            tags.append("shared")
        if case["logic"]:
            tags.append("where")
        for f in ("//", "%", "**", "(", "/"):
            if any(f in e for e in exprs):
                tags.append("op " + f)
    return tags
