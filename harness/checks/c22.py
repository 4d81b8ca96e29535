from core import *
import fakepandas

pd = fakepandas.install()


def key_of(lab, axis):
    """What the index holds for a label of a histogram axis, in comparable form."""
    if isinstance(lab, IntervalNaN):
        return "{NaN}"
    if isinstance(lab, Interval):
        if isinstance(axis, hax.intbin):
            closed = "left" if lab.closedlow else "right"
        else:
            closed = "left" if axis.closedlow else "right"
        return ("iv", num(lab.low), num(lab.high), closed)
    if isinstance(axis, hax.intbin):
        return str(lab)         # integers are exported as text, next to intervals
    if isinstance(lab, numpy.generic):
        lab = lab.item()
    return ("k", type(lab).__name__, lab)


def got_key(k, axis):
    if isinstance(k, pd.Interval):
        return ("iv", num(k.left), num(k.right), k.closed)
    if isinstance(axis, hax.intbin):
        return str(k)
    if isinstance(k, str) and k == "{NaN}" and not isinstance(axis, hax.groupby):
        return k
    if isinstance(k, numpy.generic):
        k = k.item()
    return ("k", type(k).__name__, k)


def rows(axes, content, labels=()):
    if len(axes) and isinstance(axes[0], GroupAxis):
        for lab, sub in axes[0].items(content):
            for y in rows(axes[1:], sub, labels + (key_of(lab, axes[0]),)):
                yield y
    else:
        keys = [[key_of(k, a) for k in a.keys()] for a in axes]
        flat = content.reshape((-1, content.shape[-1])).tolist()
        for combo, row in zip(product(keys), flat):
            yield labels + tuple(combo), row


def check(case):
    spec = case["spec"]
    defs = spec.get("defs")
    h = mkhist(spec)
    m = Model(spec)
    if case["data"] is not None:
        pour(h, case["data"])
        m.fill(records(case["data"]))
    before = full(h)
    ps, axes = profs(h), binned(h)
    cuts = [a for a in axes if isinstance(a, hax.cut)]
    tags = []
    for req in case["reqs"]:
        opts = dict(req["opts"])
        if "cuts" in req:
            which = [cuts[i] for i in req["cuts"]]
            left = [a for a in axes if not any(a is c for c in which)]
        else:
            which = [ps[i] for i in req["profiles"]]
            left = axes
        args = [refer(h, a, k, defs) for a, k in zip(which, req["how"])]
        what = "pandas(%s, %s) of %r" % (", ".join(repr(a) for a in args), opts, h)
        if not left:
            continue
        if "cuts" in req:
            content, columns = h.fraction(*which, recarray=False, columns=True, **opts)
        else:
            content, columns = h.table(*which, recarray=False, columns=True, **opts)
        want = {}
        for k, row in rows(left, content):
            require(k not in want, "{0}: label {1} twice", what, k)
            want[k] = row
        df = h.pandas(*args, **opts)
        require(isinstance(df, pd.DataFrame), "{0} is {1}", what, df)
        require([str(c) for c in df.columns] == [str(c) for c in columns], "{0} has columns {1} instead of {2}", what, df.columns, columns)
        require(list(df.index.names) == [str(a.expr) for a in left], "{0} has index names {1}", what, df.index.names)
        got = {}
        for k, row in zip(df.index.rows, df.values.tolist()):
            require(len(k) == len(left), "{0} has index {1}", what, k)
            k = tuple(got_key(x, a) for x, a in zip(k, left))
            require(k not in got, "{0} has two rows for {1}", what, k)
            got[k] = row
        require(len(df.index) == len(want) and set(got) == set(want), "{0} has rows for {1} instead of {2}", what, sorted(map(repr, set(got) - set(want)))[:3], sorted(map(repr, set(want) - set(got)))[:3])
        for k in want:
            require(len(got[k]) == len(want[k]) and all(x == y or (x != x and y != y) for x, y in zip(got[k], want[k])), "{0} has {1} at {2} instead of {3}", what, got[k], k, want[k])
        # and with what was filled
        if "cuts" not in req and not opts.get("normalized") and opts.get("count", True):
            counts = {}
            for labels, c in m.cells.items():
                counts[labels] = c.w
            for labels, row in walk(left, content):
                require(near(row[0], counts.get(labels, 0.0), 1e-9), "{0}: bin {1} has count {2} instead of {3}", what, labels, row[0], counts.get(labels, 0.0))
        if any(any(row) for row in want.values()):
            tags.append("fraction" if "cuts" in req else "table")
            ng = len([a for a in left if isinstance(a, GroupAxis)])
            tags.append("groups-%d-fixed-%d" % (ng, len(left) - ng))
    require(full(h) == before, "exporting modified the histogram")
    for a in axes:
        if not isinstance(a, hax.cut):
            require(rejects(lambda: h.pandas(a)), "pandas({0}) is accepted", a)
    require(rejects(lambda: h.pandas("nothing")), "pandas of an unknown axis is accepted")
    if ps and cuts:
        require(rejects(lambda: h.pandas(ps[0], cuts[0])), "pandas of a profile and a cut is accepted")
    return tags
