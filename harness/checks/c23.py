from core import *
import histbook.book


def prefixed(spec, by, members):
    """The model of the grouped histogram: each member's cells under its name."""
    out = Model(dict(spec, axes=[{"t": "groupby", "e": by}] + spec["axes"]))
    for n, m in members.items():
        out.seen |= set((i + 1, lab) for i, lab in m.seen)
        for k, c in m.cells.items():
            out.cell((("k", n),) + k).add(c)
    return out


def total(spec, members):
    out = Model(spec)
    for m in members.values():
        out = out.plus(m)
    return out


def lower(axis, lab):
    if isinstance(axis, hax.groupbin):
        return "NaN" if lab == "nan" else lab[1]
    return lab[1]


def keys_ok(h, m, names, what):
    """groupkeys: every category that holds something, none that no record fell in."""
    for i, a in enumerate(x for x in h.axis if isinstance(x, GroupAxis)):
        got = h.groupkeys(a)
        require(isinstance(got, set), "groupkeys of {0} is a {1}", what, type(got))
        must = set(lower(a, k[i]) for k in m.view())
        may = set(lower(a, lab) for j, lab in m.seen if i == j and lab is not DROP)
        if i == 0 and names is not None:
            must, may = set(names), set(names)
        got = set(num(k) if isinstance(k, float) else k for k in got)
        require(must <= got and got <= may, "groupkeys({0}) of {1} is {2} instead of {3}", a, what, got, must)
        require(set(num(k) if isinstance(k, float) else k for k in h.groupkeys(a.copy())) == got, "groupkeys({0}) of {1} depends on the object", a, what)


def grouped_ok(h, spec, by, members, what, select=True):
    m = prefixed(spec, by, members)
    labels_ok(h, m.spec, what)
    sample = mkhist(spec)
    require([repr(a) for a in h.axis] == [repr(hax.groupby(by))] + [repr(a) for a in sample.axis], "{0} has axes {1}", what, h.axis)
    same(view(h), m.view(), what)
    keys_ok(h, m, members, what)
    if select:
        rest = [a for a in binned(h)[1:]]
        same(view(h.project(*rest)), total(spec, members).view(), what + ", projected without " + by)
        for n in members:
            one = h.select("%s == %r" % (by, n))
            same(view(one.project(*rest)), members[n].view(), what + ", only " + repr(n))
    return m


def member(spec, d):
    s = dict(spec)
    if d.get("weight") is not None:
        s["weight"] = d["weight"]
    if d.get("att"):
        s["att"] = d["att"]
    if d.get("defs"):
        s["defs"] = dict(s.get("defs") or {}, **d["defs"])
    h = mkhist(s)
    m = Model(s)
    if d["data"] is not None:
        pour(h, d["data"])
        m.fill(records(d["data"]))
    return h, m


def check(case):
    if "book" in case:
        return books(case["book"])
    spec, by = case["spec"], case["by"]
    inputs = []
    first, models = {}, {}
    for n, d in case["first"]:
        first[n], models[n] = member(spec, d)
        inputs.append((first[n], models[n], full(jsonround(first[n]))))

    def untouched(what):
        for h, m, f in inputs:
            require(full(h)[1:] == f[1:], "{0} changed an input: {1} instead of {2}", what, full(h)[1:], f[1:])
            same(view(h), f[0], "an input after " + what)
    if by == "source" and len(by) % 2 == 0 and case["odd"] % 2:
        h = Hist.group(**first)
    else:
        h = Hist.group(by=by, **first)
    what = "group(%s=%s)" % (by, sorted(first))
    require(type(h) is Hist, "{0} is a {1}", what, type(h))
    grouped_ok(h, spec, by, models, what)
    untouched(what)
    defs = {}
    for x in first.values():
        defs.update(x.defs)
    require(h.defs == defs, "{0} has definitions {1} instead of {2}", what, h.defs, defs)
    uniform = all(d.get("weight") in (None, spec["weight"]) for n, d in case["first"])
    more = dict(case["more"], cols=dict(case["more"]["cols"], **{by: case["keys"]}))

    def fill(h, models):
        arrays = mkdata(case["more"])
        arrays[by] = numpy.array(case["keys"], dtype="U5")
        h.fill(arrays)
        models = dict(models)
        for i, n in enumerate(case["keys"]):
            if n not in models:
                models[n] = Model(spec)
            models[n] = models[n].plus(Model(spec).fill(records(subdata(case["more"], [i]))))
        return models
    between = list(case["between"])
    for step in case["steps"]:
        k = between.pop(0) if between else 5
        if k == 0 and uniform and case["more"]["cols"] and len(h.fields) and all(c in more["cols"] for c in h.fields):
            models = fill(h, models)
            grouped_ok(h, spec, by, models, "filling the group", select=False)
            untouched("filling the group")
        elif k == 1:
            old, oldmodels = h, dict(models)
            h = h.copyonfill()
        elif k == 2:
            h = h.copy()
        elif k == 3:
            h = Hist.fromjson(json.loads(json.dumps(h.tojson())))
        elif k == 4:
            h = h * 2
            models = dict((n, m.times(2)) for n, m in models.items())
        adds = {}
        for n, d in step:
            x, m = member(spec, d)
            adds[n] = x
            inputs.append((x, m, full(jsonround(x))))
            models[n] = models[n].plus(m) if n in models else m
        res = h.togroup(**adds)
        require(res is None or res is h, "togroup returns {0}", res)
        what = "togroup(%s)" % sorted(adds)
        grouped_ok(h, spec, by, models, what)
        untouched(what)
        if k == 1:
            grouped_ok(old, spec, by, oldmodels, "the original of a copyonfill after " + what, select=False)
    # the group is on its own
    if uniform and len(h.fields) and all(c in more["cols"] for c in h.fields):
        models = fill(h, models)
        grouped_ok(h, spec, by, models, "filling the group at last", select=False)
        untouched("filling the group at last")
    for x, m, f in inputs:
        if len(x.fields) and case["odddata"]["cols"]:
            x.fill(mkdata(case["odddata"]))
    grouped_ok(h, spec, by, models, "the group after filling its inputs", select=False)
    # refusals
    odd = refusal(case, spec, by, h, first)
    grouped_ok(h, spec, by, models, "the group after a refusal", select=False)
    tags = []
    if h.table() is not None and len([m for m in models.values() if m.view()]) > 1:
        tags.append("several")
    if case["steps"]:
        tags.append("togroup")
    if not uniform:
        tags.append("weights differ")
    if spec["weight"] is not None or spec["filter"] is not None:
        tags.append("weighted")
    if any(d["data"] is None for n, d in case["first"]):
        tags.append("unfilled")
    return tags if any(m.view() for m in models.values()) else []


def refusal(case, spec, by, h, first):
    odd = case["odd"]
    good = list(first.values())[0]
    bads = {}
    axes = list(spec["axes"])
    plain = mkhist(spec)
    bads["axis"] = Hist(*([mkaxis(a) for a in axes] + [hax.bin("zz", 3, 0.0, 1.0)]), weight=spec["weight"], filter=spec["filter"])
    bads["profile"] = Hist(*([mkaxis(a) for a in axes] + [hax.profile("zz")]), weight=spec["weight"], filter=spec["filter"])
    bads["group"] = Hist(*([hax.groupby("zz")] + [mkaxis(a) for a in axes]), weight=spec["weight"], filter=spec["filter"])
    if len(axes) > 1:
        bads["fewer"] = Hist(*[mkaxis(a) for a in axes[1:]], weight=spec["weight"], filter=spec["filter"])
    if spec["weight"] is None and spec["filter"] is None:
        bads["weighted"] = mkhist(dict(spec, weight=2.0))
    else:
        bads["unweighted"] = mkhist(dict(spec, weight=None, filter=None))
    for n, x in bads.items():
        require(rejects(lambda: Hist.group(by=by, good=good, bad=x), (TypeError, ValueError)), "group accepts {0} with {1}", x, good)
        require(rejects(lambda: Hist.group(by=by, bad=x, good=good), (TypeError, ValueError)), "group accepts {0} with {1}", good, x)
        require(rejects(lambda: h.togroup(another=plain, bad=x), (TypeError, ValueError)), "togroup of {0} accepts {1}", h, x)
    for x in (3, None, "h", Book(), [good]):
        require(rejects(lambda: Hist.group(by=by, good=good, bad=x), (TypeError, ValueError, AttributeError)), "group accepts {0!r}", x)
        require(rejects(lambda: h.togroup(bad=x), (TypeError, ValueError, AttributeError)), "togroup accepts {0!r}", x)
    require(rejects(lambda: Hist.group(by=by), (TypeError, ValueError)), "group of nothing")
    require(rejects(lambda: Hist.group(by=by, again=h), (TypeError, ValueError)), "group by {0} of a histogram that has it", by)
    if not (binned(good) and isinstance(binned(good)[0], hax.groupby)):
        require(rejects(lambda: good.togroup(a=plain), (TypeError, ValueError)), "togroup of {0}, which has no groupby axis first", good)
    return True


def books(case):
    cls = getattr(histbook.book, case["cls"])
    built, models = {}, {}
    for name, d in case["books"]:
        bk = cls()
        ms = {}
        for p, data in d["hists"]:
            h = mkhist(case["specs"][p])
            m = Model(case["specs"][p])
            if data is not None:
                pour(h, data)
                m.fill(records(data))
            bk[p] = h
            ms[p] = m
        for k, x in (d["att"] or {}).items():
            bk.attach(k, x)
        built[name], models[name] = bk, ms
    before = dict((n, (str(bk), dict((p, full(h)) for p, h in bk.allitems(onlyhist=True)))) for n, bk in built.items())
    by = case["by"]
    out = cls.group(by=by, **built)
    require(type(out) is cls, "group of books is a {0}", type(out))

    def ok(out, what):
        got = dict(out.allitems(onlyhist=True))
        want = set(p for ms in models.values() for p in ms)
        require(set(got) == want, "{0} holds {1} instead of {2}", what, sorted(got), sorted(want))
        for p in want:
            grouped_ok(got[p], case["specs"][p], by, dict((n, ms[p]) for n, ms in models.items() if p in ms), what + ", " + p, select=False)

    def untouched(what):
        for n, bk in built.items():
            require((str(bk), sorted(p for p, h in bk.allitems(onlyhist=True))) == (before[n][0], sorted(before[n][1])), "{0} changed an input to {1}", what, bk)
            for p, h in bk.allitems(onlyhist=True):
                same(view(h), before[n][1][p][0], "input %s/%s after %s" % (n, p, what))
                require(full(h)[1:] == before[n][1][p][1:], "{0} changed an input to {1}", what, h)
    ok(out, "the group of books")
    untouched("group")
    att = {}
    for name, d in case["books"]:
        att.update(d["att"] or {})
    require(set(out.attachment) == set(att), "the group of books has attachments {0}", out.attachment)
    # own content
    two = cls.group(by=by, **built)
    two *= 2
    two.clear()
    untouched("scaling and clearing the group")
    ok(out, "the group of books after clearing another")
    for n, bk in built.items():
        if type(bk) is Book and len(bk.fields):
            bk.fill(mkdata(case["more"]))
        else:
            bk *= 3
    ok(out, "the group of books after filling its inputs")
    if built and any(models.values()):
        name, ms = [(n, ms) for n, ms in models.items() if ms][0]
        p = sorted(ms)[case["odd"] % len(ms)]
        bad = cls()
        h = mkhist(case["specs"][p])
        bad[p] = Hist(*([a.copy() for a in h.axis] + [hax.bin("zz", 2, 0.0, 1.0)]), weight=case["specs"][p]["weight"], filter=case["specs"][p]["filter"])
        require(rejects(lambda: cls.group(by=by, good=built[name], bad=bad), (TypeError, ValueError)), "group accepts books that differ at {0}", p)
        bad = cls()
        bad[p] = Book()
        require(rejects(lambda: cls.group(by=by, good=built[name], bad=bad), (TypeError, ValueError)), "group accepts a book and a histogram at {0}", p)
        require(rejects(lambda: cls.group(by=by, good=built[name], bad=h), (TypeError, ValueError, AttributeError)), "group accepts a book with a histogram")
        require(rejects(lambda: cls.group(by=by, again=out), (TypeError, ValueError)), "group by {0} of a book that has it", by)
    tags = ["book"]
    if len([1 for ms in models.values() if any(m.view() for m in ms.values())]) > 1:
        tags.append("several")
    return tags if any(m.view() for ms in models.values() for m in ms.values()) else []
