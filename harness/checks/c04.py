from core import *


def mk(spec, d):
    h = mkhist(spec)
    if d is not None:
        h.fill(mkdata(d))
    return h


def recs(d):
    return [] if d is None else records(d)


def check(case):
    spec = case["spec"]
    da, db, dc = case["datas"]
    a, b, c = mk(spec, da), mk(spec, db), mk(spec, dc)
    before = [view(h) for h in (a, b, c)]
    ma, mb, mc = [Model(spec).fill(recs(d)) for d in (da, db, dc)]
    a, b, c = mk(spec, da), mk(spec, db), mk(spec, dc)      # looking at them may have allocated content

    ab = a + b
    same(view(ab), ma.plus(mb).view(), "a + b")
    same(view(b + a), view(ab), "b + a")
    same(view((a + b) + c), view(a + (b + c)), "(a + b) + c")
    same(view((a + b) + c), ma.plus(mb).plus(mc).view(), "a + b + c")
    labels_ok(ab, spec, "a + b")
    require(repr(ab) == repr(a) or [repr(x) for x in ab.axis] == [repr(x) for x in a.axis], "a + b has other axes: {0}", ab)
    for h, v, n in zip((a, b, c), before, "abc"):
        same(view(h), v, n + " after a + b + c")

    # unfilled is the identity
    zero = mkhist(spec)
    same(view(a + zero), before[0], "a + unfilled")
    same(view(mkhist(spec) + a), before[0], "unfilled + a")

    # in place
    h = mk(spec, da)
    g = h
    h += mk(spec, db)
    require(h is g, "a += b gives another object")
    same(view(h), view(ab), "a += b")
    h = mkhist(spec)
    h += mk(spec, da)
    same(view(h), before[0], "unfilled += a")
    h = mk(spec, da)
    h += mkhist(spec)
    same(view(h), before[0], "a += unfilled")
    h = mk(spec, da)
    h += h
    same(view(h), ma.times(2).view(), "a += a")
    same(view(mk(spec, da) + mk(spec, da)), ma.times(2).view(), "a + a")
    same(view(a + a), ma.times(2).view(), "a + a (same object)")

    # sums can be filled further
    more = case["more"]
    ab.fill(mkdata(more))
    same(view(ab), ma.plus(mb).plus(Model(spec).fill(records(more))).view(), "filling a + b")
    same(view(a), before[0], "a after filling a + b")
    same(view(b), before[1], "b after filling a + b")

    # scaling
    k = case["k"]
    kk = [k, numpy.float64(k), numpy.float32(k) if float(numpy.float32(k)) == k else k, numpy.int32(k) if k == int(k) else k, numpy.int64(k) if k == int(k) else float(k)][case["np"]]
    if k >= 0:
        want = ma.times(k).view()
        same(view(a * kk), want, "a * %r" % (kk,))
        if not isinstance(kk, numpy.generic):
            same(view(kk * a), want, "%r * a" % (kk,))
        h = mk(spec, da)
        g = h
        h *= kk
        require(h is g, "a *= k gives another object")
        same(view(h), want, "a *= %r" % (kk,))
        same(view((a + b) * kk), view(a * kk + b * kk), "(a + b)*k")
    else:
        m = ma.times(k)
        counts = dict(walk(binned(a), (a * kk).table(error=False, recarray=False)))
        for lab, cell in m.cells.items():
            require(near(counts[lab][0], cell.w, 1e-9), "a * {0}: bin {1} has count {2} instead of {3}", kk, lab, counts[lab][0], cell.w)
        h = mk(spec, da)
        h *= kk
        counts2 = dict(walk(binned(h), h.table(error=False, recarray=False)))
        require(set(counts) == set(counts2) and all(near(counts[x][0], counts2[x][0], 1e-9) for x in counts), "a *= {0} differs from a * {0}", kk)
        same(view(a + a * kk * (-1)), ma.times(1 - k).view(), "a - k*a")
    same(view(a), before[0], "a after a * k")
    same(view(a * 1), before[0], "a * 1")

    # refusals
    x = mk(case["other"], case["otherdata"])
    xv = view(x)
    for fcn, what in ((lambda: a + x, "a + (other axes or weights)"), (lambda: x + a, "(other axes or weights) + a"), (lambda: a.__iadd__(x), "a += (other axes or weights)"),
                      (lambda: x.__iadd__(a), "(other axes or weights) += a"),
                      (lambda: a + 1, "a + 1"), (lambda: a + None, "a + None"), (lambda: a + "a", "a + str"), (lambda: a.__iadd__(2), "a += 2"), (lambda: a + Book(), "a + Book"),
                      (lambda: a * a, "a * a"), (lambda: a * "2", "a * str"), (lambda: a.__imul__(b), "a *= b"), (lambda: a * None, "a * None"), (lambda: a * [1, 2], "a * list")):
        require(rejects(fcn, (TypeError, ValueError)), "{0} is accepted for {1} and {2}", what, a, x)
    same(view(a), before[0], "a after refused operations")
    same(view(x), xv, "other operand after refused operations")
    same(view(b), before[1], "b after refused operations")

    tags = []
    if len(before[0]) and len(before[1]):
        tags.append("both-filled")
        if set(before[0]) != set(before[1]):
            tags.append("different-bins")
    if None in (da, db, dc):
        tags.append("unfilled")
    if ma.weighted:
        tags.append("weighted")
    if ma.profiles:
        tags.append("profiles")
    if any(s["t"].startswith("group") for s in spec["axes"]):
        tags.append("groups")
    return tags if len(before[0]) and len(before[1]) else []
