from core import *


def check(case):
    spec = case["spec"]
    defs = spec.get("defs")
    target = spec["axes"][case["target"]]
    h = mkhist(spec)
    m = Model(spec)
    if case["data"] is not None:
        pour(h, case["data"])
        m.fill(records(case["data"]))
        before = full(h)
    where = [i for i, a in enumerate(m.binned) if a is target][0]
    axis = binned(h)[where]
    ref = refer(h, axis, case["how"], defs)
    t = target["t"]
    if t == "groupbin":
        old = None
    elif t == "intbin":
        old = [i - 0.5 for i in range(target["min"], target["max"] + 2)]
    else:
        labels = [k for k in axis.keys() if isinstance(k, Interval) and not isinstance(k, IntervalNaN)]
        old = sorted(set([k.low for k in labels] + [k.high for k in labels]) - set([INF, -INF])) or edges_of(target)
    new = {"t": "split", "e": target["e"], "u": target.get("u"), "o": target.get("o"), "N": target.get("N", False), "cl": target.get("cl", True)}
    if case["by"]:
        k = case["factor"]
        f = numpy.int64(k) if case["np"] else k
        out = h.rebinby(ref, f)
        what = "rebinby(%r, %r) of %r" % (ref, f, h)
        if t == "groupbin":
            new = dict(target, w=target["w"] * k)
        else:
            new["edges"] = old[:-1:k] + old[-1:]
    else:
        edges = [e for i, e in enumerate(old) if (case["mask"] >> i) & 1] or old[:1]
        if len(edges) == 1 and not (new["u"] or new["o"] or new["N"]):
            edges = old[:2]
        given = list(reversed(edges)) if case["shuffle"] else tuple(edges) if case["mask"] % 3 == 0 else edges
        if case["np"]:
            given = numpy.array(given)
        out = h.rebin(ref, given)
        what = "rebin(%r, %r) of %r" % (ref, given, h)
        new["edges"] = edges
    newspec = dict(spec, axes=[new if a is target else a for a in spec["axes"]])
    want = Model(newspec)
    if case["data"] is not None:
        want.fill(records(case["data"]))
    labels_ok(out, newspec, what)
    require([a.expr for a in out.axis] == [a.expr for a in h.axis], "{0} has axes {1}", what, out)
    require([repr(a) for i, a in enumerate(out.axis) if i != where] == [repr(a) for i, a in enumerate(h.axis) if i != where], "{0} has other axes {1}", what, out)
    same(view(out), want.view(), what)
    if case["data"] is not None:
        same(full(h)[0], before[0], "the original after " + what)
        require(full(h)[1:] == before[1:], "{0} changed the original: {1}", what, full(h)[1:])
    more = Model(newspec).fill(records(case["more"]))
    out.fill(mkdata(case["more"]))
    same(view(out), want.plus(more).view(), "filling " + what)
    same(view(h), m.view(), "the original after filling " + what)

    bad = [(lambda: h.rebinby(ref, 0), "factor 0"), (lambda: h.rebinby(ref, -1), "factor -1"), (lambda: h.rebinby(ref, 1.5), "factor 1.5"), (lambda: h.rebinby("zz", 2), "unknown axis"),
           (lambda: h.rebin("zz", [0.0, 1.0]), "unknown axis")]
    if t == "groupbin":
        bad.append((lambda: h.rebin(ref, [0.0, 1.0]), "edges of a groupbin"))
    elif not any(abs(case["bad"] - e) < 1e-9 for e in old):
        bad.append((lambda: h.rebin(ref, old + [case["bad"]]), "an edge at %r" % case["bad"]))
        bad.append((lambda: h.rebin(ref, [case["bad"]]), "an edge at %r" % case["bad"]))
    for a in h.axis:
        if isinstance(a, (hax.cut, hax.groupby, ProfileAxis)):
            bad.append((lambda a=a: h.rebinby(a, 2), repr(a)))
            bad.append((lambda a=a: h.rebin(a, [0.0, 1.0]), repr(a)))
    for fcn, why in bad:
        require(rejects(fcn, (IndexError, TypeError, ValueError)), "rebinning with {0} is accepted by {1}", why, h)
    tags = [t, "by" if case["by"] else "edges"]
    if t != "groupbin" and not (new["u"] and new["o"]):
        tags.append("flow-off")
    if len(m.binned) > 1:
        tags.append("several-axes")
    if m.profiles:
        tags.append("profiles")
    changed = (t == "groupbin" and case["factor"] > 1) or (t != "groupbin" and len(new["edges"]) < len(old))
    return tags if changed and len(m.view()) else []
