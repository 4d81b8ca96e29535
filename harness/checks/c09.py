from core import *

OPS = {"<": lambda x, v: x < v, "<=": lambda x, v: x <= v, ">": lambda x, v: x > v, ">=": lambda x, v: x >= v, "==": lambda x, v: x == v, "!=": lambda x, v: x != v,
       "in": lambda x, v: x in v, "not in": lambda x, v: x not in v, "cut": lambda x, v: bool(x) == v}


def holds(lit, x):
    v = lit["v"]
    if isinstance(v, float) and v != v:
        return (x != x) if lit["op"] == "==" else (x == x)
    return OPS[lit["op"]](x, v)


def points(lab, v, integers):
    """Representative values of a label with respect to a threshold."""
    if lab == "nan":
        return [NAN]
    if lab[0] == "k":
        return [lab[1]]
    if not isinstance(v, (int, float)) or v != v:
        v = 0.0
    marks = sorted(set([lab[1], lab[2], float(v)]))
    out = []
    if integers:
        for m in marks:
            if abs(m) != INF:
                out += [math.floor(m) + d for d in (-2, -1, 0, 1, 2)]
        return [x for x in out if inside(lab, x)]
    out += marks
    for a, b in zip(marks[:-1], marks[1:]):
        out.append(0.0 if a == -INF and b == INF else b - 1.0 if a == -INF else a + 1.0 if b == INF else (a + b) / 2.0)
    if lab[2] == lab[1]:
        return [lab[1]]       # a sparse bin at infinity, or so far out that its width is less than rounding
    return [x for x in out if inside(lab, x)]


def status(lit, lab, integers):
    """True, False or None (the label has both kinds of values)."""
    res = set(bool(holds(lit, x)) for x in points(lab, lit["v"], integers))
    return res.pop() if len(res) == 1 else None


def kleene(form, values):
    if form == "or":
        return True if True in values else None if None in values else False
    return False if False in values else None if None in values else True


def must_accept(lit, a):
    """The documentation promises that this selection works."""
    t, op, v = a["t"], lit["op"], lit["v"]
    if t == "cut":
        return a["e"] != "u < v" if lit["v"] else a["e"] == "p"      # (thresholds must be constants)
    if t == "groupby":
        return True
    if not isinstance(v, (int, float)) or v != v or abs(v) == INF:
        return False
    if t == "intbin":
        return op in ("<", "<=", ">", ">=") and v == int(v) and a["min"] < v < a["max"]
    right = op in (("<", ">=") if a["cl"] else ("<=", ">"))
    if t == "groupbin":
        return right and abs((v - a["org"]) / a["w"] - round((v - a["org"]) / a["w"])) < 1e-8
    return right and any(abs(v - x) < 1e-8 for x in edges_of(a)[1:-1])


def alternatives(case):
    """(A and B) or (C and D) on one sparse axis."""
    spec, data, at = case["spec"], case["data"], case["axis"]
    h = mkhist(spec)
    pour(h, data)
    recs = records(data)
    g, f, p = split_axes(spec)
    axes = g + f
    a = axes[at]
    for term in case["terms"]:
        for l in term:
            if a["t"] == "groupbin":
                l["v"] = num(l["v"])
    text = " or ".join("(%s)" % " and ".join(("%s" if len(term) == 1 else "(%s)") % l["text"] for l in term) for term in case["terms"])
    before = full(h)
    try:
        out = h.select(text)
    except (ValueError, TypeError):
        require(a["t"] != "groupby", "select({0!r}) of {1} is refused although the categories decide it", text, h)
        return ["refused"]
    want = {}
    for labels, row in walk(binned(h), h.table(*profs(h), effcount=True, recarray=False)):
        d = kleene("or", [kleene("and", [status(l, labels[at], False) for l in term]) for term in case["terms"]])
        require(d is not None, "select({0!r}) of {1} is accepted although bin {2} has values of both kinds", text, h, labels)
        if d and any(x != 0 for x in row):
            want[labels] = row
    same(view(out), want, "select(%r)" % text)
    good = [i for i, r in enumerate(recs) if any(all(holds(l, ev(a["e"], r, spec.get("defs"))) for l in term) for term in case["terms"])]
    same(view(out), Model(spec).fill([recs[i] for i in good]).view(), "select(%r) against filling with the entries that satisfy it" % text)
    same(full(h)[0], before[0], "original after select(%r)" % text)
    return ["accepted", "alternatives"] + (["some-removed"] if len(want) and len(want) < len(before[0]) else [])


def described(h):
    return [(type(a), a.expr, [canon(k) for k in a.keys()] if isinstance(a, FixedAxis) else None) for a in h.axis]


def check(case):
    if case["form"] == "dnf":
        return alternatives(case)
    spec, data, form, lits = case["spec"], case["data"], case["form"], case["lits"]
    h = mkhist(spec)
    recs = records(data) if case["filled"] else []
    if case["filled"]:
        pour(h, data)
    before = full(h)
    g, f, p = split_axes(spec)
    axes = g + f
    text = (" or " if form == "or" else " and ").join("(%s)" % l["text"] if len(lits) > 1 else l["text"] for l in lits)
    for l in lits:
        if l["axis"] is not None and axes[l["axis"]]["t"] in ("bin", "split", "groupbin"):
            l["v"] = num(l["v"])
    opts = {} if case.get("tol") is None else {"tolerance": case["tol"]}
    try:
        out = h.select(text, **opts)
    except Exception as err:
        require(isinstance(err, (ValueError, TypeError)), "select({0!r}) of {1} raises {2}: {3}", text, h, type(err).__name__, err)
        out = None
    same(full(h)[0], before[0], "original after select(%r)" % text)
    require(full(h)[1:] == before[1:], "select({0!r}) changed the original: {1} instead of {2}", text, full(h)[1:], before[1:])
    if form == "unknown":
        require(out is None, "select({0!r}) of {1}, which no axis can decide, gives {2}", text, h, out)
        return ["undecidable"]

    distinct = []
    for l in lits:
        if not any((l["axis"], l["op"], repr(l["v"]), l.get("off")) == (k["axis"], k["op"], repr(k["v"]), k.get("off")) for k in distinct):
            distinct.append(l)
    lits = distinct
    if len(lits) == 1:
        form = "and"          # "p or p" is p
    integers = [a["t"] == "intbin" for a in axes]
    if out is None:
        if form == "and" and len(set(l["axis"] for l in lits)) == len(lits):
            # (a conjunction with a disjunction is distributed)
            require(len(lits) > 1 and any(" or " in l["text"] for l in lits) or not all(must_accept(l, axes[l["axis"]]) for l in lits), "select({0!r}) of {1} is refused although the axis has that edge", text, h)
        if form == "or" and len(set(l["axis"] for l in lits)) == 1 and axes[lits[0]["axis"]]["t"] == "groupby" and axes[lits[0]["axis"]]["e"] != "p":
            require(False, "select({0!r}) of {1} is refused although the categories decide it", text, h)
        return ["refused"]

    # accepted: which axes survive (a cut that is selected on is gone)
    gone = set(l["axis"] for l in lits if l["op"] == "cut") if form == "and" else set()
    keep = [i for i in range(len(axes)) if i not in gone]
    require([a.expr for a in binned(out)] == [axes[i]["e"] for i in keep], "select({0!r}) of {1} has axes {2}", text, h, out)
    require([repr(a) for a in profs(out)] == [repr(a) for a in profs(h)], "select({0!r}) changed the profiles", text)

    def decide(labels):
        return kleene(form, [status(l, labels[l["axis"]], integers[l["axis"]]) for l in lits])

    # every bin of the original is wholly kept or wholly removed
    want = {}
    counts = {}
    for labels, row in walk(binned(h), h.table(*profs(h), effcount=True, recarray=False)):
        d = decide(labels)
        require(d is not None, "select({0!r}) of {1} is accepted although bin {2} has values of both kinds", text, h, labels)
        if d and any(x != 0 for x in row):
            key = tuple(labels[i] for i in keep)
            require(key not in want, "harness: two bins map to {0}", key)
            want[key] = row
    same(view(out), want, "select(%r)" % text)
    # labels of the fixed axes: exactly those that satisfy it
    if form == "and":
        for a, i in zip(binned(out), keep):
            if axes[i]["t"] in ("bin", "split", "intbin", "cut"):
                labs = [lab for lab in fixed_labels(axes[i]) if all(status(l, lab, integers[i]) for l in lits if l["axis"] == i)]
                got = [canon(k) for k in a.keys()]
                require(got == labs, "select({0!r}) of {1}: axis {2} has bins {3} instead of {4}", text, h, a, got, labs)

    # filled only with the entries that satisfy it
    def sat(r):
        vals = []
        for l in lits:
            x = ev(axes[l["axis"]]["e"], r, spec.get("defs"))
            vals.append(holds(l, x))
        return any(vals) if form == "or" else all(vals)
    good = [i for i, r in enumerate(recs) if sat(r)]
    m = Model(spec).fill([recs[i] for i in good])
    same(view(out), dict((tuple(k[i] for i in keep), r) for k, r in m.view().items()), "select(%r) against filling with the entries that satisfy it" % text)
    # and can be filled with more of them
    if good and len(out.fields):
        out.fill(mkdata(subdata(data, good)))
        m.fill([recs[i] for i in good])
        same(view(out), dict((tuple(k[i] for i in keep), r) for k, r in m.view().items()), "filling select(%r)" % text)
        same(full(h)[0], before[0], "original after filling select(%r)" % text)
    # conjunctions are successive selections, in any order
    if form == "and" and len(lits) > 1:
        for order in (lits, list(reversed(lits))):
            x = h
            try:
                for l in order:
                    x = x.select(l["text"], **opts)
            except (ValueError, TypeError):
                # an edge that the earlier one removed (the order of the parts of a conjunction is not specified)
                require(any(" or " in l["text"] for l in lits) or len(set(l["axis"] for l in lits)) < len(lits), "select({0!r}) is accepted, but not successive selections {1}", text, [l["text"] for l in order])
                continue
            same(view(x), want, "successive selections %s" % [l["text"] for l in order])
            require(described(x) == described(out), "successive selections {0} have axes {1}, not {2}", [l["text"] for l in order], x, out)
    tags = ["accepted", form]
    if case.get("tol") is not None:
        tags.append("tolerance")
    if any(l.get("off") for l in lits):
        tags.append("near-edge")
    for l in lits:
        tags.append("on " + axes[l["axis"]]["t"])
    if len(want) and len(want) < len(before[0]):
        tags.append("some-removed")
    return tags
