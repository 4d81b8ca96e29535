from core import *
import pickle

SPACE = dict((n, getattr(histbook, n)) for n in ("bin", "intbin", "split", "cut", "groupby", "groupbin", "profile", "Hist", "Book", "ChannelsBook"))
SPACE.update({"inf": INF, "nan": NAN})


def binning(spec):
    out = []
    g, f, p = split_axes(spec)
    for a in g + f:
        b = dict((k, v) for k, v in a.items() if k != "e")
        for k in ("u", "o", "N", "cl"):
            if k in b:
                b[k] = bool(b[k])
        if "edges" in b:
            b["edges"] = sorted(float(x) for x in b["edges"])
        for k in ("lo", "hi", "w", "org"):
            if k in b:
                b[k] = float(b[k])
        out.append(b)
    return out


def recipe(spec):
    g, f, p = split_axes(spec)
    return (binning(spec), [a["e"] for a in g + f + p], len(p), spec.get("weight"), spec.get("filter"), spec.get("defs") or {}, spec.get("att") or {})


def equal(a, b, want, what):
    got = (a == b, b == a, a != b, b != a)
    require(got == (want, want, not want, not want), "{0}: ==, reversed ==, !=, reversed != are {1} instead of {2} for\n{3}\n{4}", what, got, want, a, b)


def axes_of(h):
    return [repr(a) for a in h.axis]


def evaluated(text, what):
    try:
        return eval(text, dict(SPACE))
    except Exception as err:
        raise Violation("%s: %s cannot be evaluated: %s" % (what, text, err))


def printed(h, what, attachment=True):
    """What the text of h evaluates to."""
    require("".join(repr(h).split()) == "".join(str(h).split()), "{0}: repr and str differ: {1} and {2}", what, repr(h), str(h))
    require("\n" not in repr(h), "{0}: repr has several lines: {1}", what, repr(h))
    for text in (repr(h), str(h)):
        e = evaluated(text, what)
        require(type(e) is Hist and axes_of(e) == axes_of(h) and list(e.axis) == list(h.axis), "{0}: {1} evaluates to a histogram with axes {2}", what, text, axes_of(e))
        require(e.defs == h.defs and tuple(e.fields) == tuple(h.fields) and tuple(e.shape) == tuple(h.shape), "{0}: {1} evaluates to {2} with other definitions, fields or shape", what, text, e)
        require(repr(e) == repr(h), "{0}: {1} prints as {2}", what, text, repr(e))
        c = h.cleared()
        for k in list(c.attachment):
            c.detach(k)
        equal(e, c, True, what + ": evaluated text and cleared histogram")
        require(view(e) == {}, "{0}: {1} evaluates to a filled histogram", what, text)
    return evaluated(repr(h), what)


def content(h, spec, model, what, tags):
    """Indexing, shape and categories."""
    g, f, p = split_axes(spec)
    ncol = 2 * len(p) + (2 if model.weighted else 1)
    shape = tuple(len(fixed_labels(a)) for a in f) + (ncol,)
    require(tuple(h.shape) == shape, "{0}: shape of {1} is {2} instead of {3}", what, h, h.shape, shape)
    hold = set(model.view())
    for i, a in enumerate(g):
        ax = h.axis[i]
        for which in (ax, i, ax.copy(), ax.expr):
            keys = h.groupkeys(which)
            require(isinstance(keys, (set, frozenset)), "{0}: groupkeys is {1}", what, type(keys))
            got = [canon(k) for k in ax.keys(dict.fromkeys(keys))]
            require(len(got) == len(keys), "{0}: {1} are the keys {2}", what, keys, got)
            require(len(set(got)) == len(got), "{0}: categories {1} of {2} are not distinct", what, got, ax)
            must = set(lab[i] for lab in hold)
            may = set(lab for j, lab in model.seen if j == i and lab is not DROP)
            require(must <= set(got) <= may, "{0}: categories of {1} are {2} instead of {3}", what, ax, sorted(map(str, got)), sorted(map(str, must)))
    for ax in list(h.axis)[len(g):]:
        require(rejects(lambda: h.groupkeys(ax), IndexError), "{0}: groupkeys of {1} is accepted", what, ax)
    # sums of each bin
    labels = [fixed_labels(a) for a in f]

    def rows(j, node, lab, path):
        if j < len(g):
            require(isinstance(node, dict), "{0}: content of group axis is {1}", what, type(node))
            for k, sub in node.items():
                rows(j + 1, sub, lab + (canon(h.axis[j].keys({k: sub})[0]),), path + (k,))
            require(rejects(lambda: h[path + ("no such category",)], KeyError), "{0}: {1} exists", what, path + ("no such category",))
        else:
            require(tuple(node.shape) == shape, "{0}: block has shape {1} instead of {2}", what, node.shape, shape)
            i = 0
            flat = node.reshape((-1, ncol)).tolist()
            combos = product(labels)
            require(len(flat) == len(combos), "{0}: block of {1} bins", what, len(flat))
            for combo in combos:
                pos = tuple(labels[m].index(x) for m, x in enumerate(combo))
                c = model.cells.get(lab + combo)
                want = []
                if c is None:
                    want = [0.0] * ncol
                else:
                    for wx, wx2 in zip(c.wx, c.wx2):
                        want += [wx, wx2]
                    want += [c.w, c.w2] if model.weighted else [c.w]
                require(all(near(x, y, 1e-9) for x, y in zip(flat[i], want)), "{0}: sums of bin {1} are {2} instead of {3} in {4}", what, lab + combo, flat[i], want, h)
                if i < 40:
                    where = path + pos
                    got = h[where] if len(where) != 1 else h[where[0]]
                    require(tuple(got.shape) == (ncol,) and got.tolist() == flat[i], "{0}: h[{1}] is {2} instead of {3}", what, where, got.tolist(), flat[i])
                i += 1
                if c is not None:
                    found.add(lab + combo)
    found = set()
    if g:
        keys = h.groupkeys(0)
        top = dict((k, h[k]) for k in keys)
        rows(0, top, (), ())
    elif f:
        rows(0, h[tuple(slice(0, None) for _ in range(1))], (), ())
    else:
        rows(0, h[slice(0, None)], (), ())
    require(hold <= found, "{0}: h[...] lacks {1}", what, hold - found)
    if hold:
        tags.add("indexed")
    if hold and g:
        tags.add("categories")


def check(case):
    spec, other, kind = case["spec"], case["other"], case["kind"]
    tags = set()
    data = case["data"] if case["filled"] else None
    recs = records(data) if data else []

    def mk(s, d, *more):
        h = mkhist(s)
        if d is not None:
            pour(h, d)
        for m in more:
            pour(h, m)
        return h

    h = mk(spec, data)
    model = Model(spec).fill(recs)
    before = view(h)
    same(before, model.view(), "h")

    # text
    e = printed(h, "h")
    e.fill(mkdata(case["tail"]))
    same(view(e), Model(spec).fill(records(case["tail"])).view(), "evaluated text, filled")
    tags.add("printed")

    content(h, spec, model, "h", tags)
    if recs and any(a["t"].startswith("group") for a in spec["axes"]):
        one = mkhist(spec)
        for i in range(len(recs)):
            one.fill(mkdata(subdata(case["data"], [i])))
        content(one, spec, model, "filled one by one", tags)
    same(view(h), before, "h after indexing")

    # equality
    twin = mk(spec, data)
    view(twin)
    for x, what in ((twin, "filled alike"), (h, "itself"), (h.copy(), "copy"), (jsonround(h), "restored from JSON"), (pickle.loads(pickle.dumps(h, 2)), "restored from pickle")):
        equal(h, x, True, what)
    # made with the axes of a histogram that has other definitions
    donor = mkhist(dict(spec, defs=dict(spec.get("defs") or {}, r="zz + yy", u="yy"), weight=None, filter=None))
    borrowed = mkhist(spec, axes=donor.axis)
    require(list(borrowed.fields) == list(mkhist(spec).fields), "{0}, made with the axes of {1}, has fields {2}", borrowed, donor, borrowed.fields)
    if data is not None:
        pour(borrowed, data)
    view(borrowed)
    equal(h, borrowed, True, "made with the axes of another")
    for x in (1, None, "a", (), {}, [], Book(), Book(a=h), mkaxis(spec["axes"][0]), object()):
        equal(h, x, False, "something else")
    o = mk(other, data)
    view(o)
    require(recipe(other) != recipe(spec) or kind in ("none", "swap"), "harness: {0}", kind)
    if kind == "weight" and set((spec["weight"], other["weight"])) == set((None, 1)):
        pass                    # no weight is a weight of 1
    elif recipe(other) != recipe(spec):
        equal(h, o, False, "another " + kind)
        tags.add("different " + kind)
    elif kind == "swap":
        equal(h, o, True, "groups, bins and profiles in the same order")
    comp = binning(other) == binning(spec)
    got = (h.compatible(o), o.compatible(h), mkhist(spec).compatible(o), h.compatible(mkhist(other)))
    require(got == (comp,) * 4, "{0} and {1} compatible: {2} instead of {3} ({4})", h, o, got, comp, kind)
    if comp:
        tags.add("compatible")
    elif kind in ("more", "less"):
        tags.add("number of axes")
    # content
    tail = case["tail"]
    m2 = Model(spec).fill(recs + records(tail))
    h2 = mk(spec, data, tail) if data else mk(spec, tail)
    v2 = m2.view()
    differ = set(v2) != set(before) or any(not rownear(v2[k], before[k]) for k in v2)
    if differ:
        equal(h, h2, False, "other contents")
        equal(twin, h2, False, "other contents")
        tags.add("different contents")
    if any(c.w2 > 0 for c in model.cells.values()):
        big = h * float(2**27)
        equal(big, big + h, False, "slightly different contents")
        equal(big, h * float(2**27), True, "the same scaled contents")
    x = h.copy()
    x.attach("zz", 1)
    equal(h, x, False, "another attachment")
    x.detach("zz")
    equal(h, x, True, "attachment removed again")
    if case["filled"]:
        x = h.copy()
        x.fill(mkdata(subdata(case["data"], [])))
        equal(h, x, True, "an empty fill")
    same(view(h), before, "h after comparisons")

    # derived ones print as what they are, too
    d = h
    for op, a, b in case["derive"]:
        axes = list(d.axis)
        bins = binned(d)
        if op == "project":
            d = d.project(*[x for i, x in enumerate(bins) if (b >> i) & 1])
        elif op == "drop":
            some = [x for i, x in enumerate(profs(d)) if (b >> i) & 1]
            if not some:
                continue
            d = d.drop(*some)
        elif op == "rebinby":
            some = [x for x in bins if isinstance(x, hax.bin) and x.numbins and x.numbins % 2 == 0 or isinstance(x, hax.groupbin)]
            if not some:
                continue
            d = d.rebinby(some[a % len(some)], 2)
        elif op == "select":
            some = [x for x in bins if isinstance(x, (hax.split, hax.bin)) and len([k for k in x.keys() if isinstance(k, Interval) and k.low > -INF and k.high < INF]) > 1]
            if not some:
                continue
            x = some[a % len(some)]
            edges = [k.low for k in x.keys() if isinstance(k, Interval) and k.low > -INF and k.high < INF][1:]
            try:
                d = d.select("%s %s %r" % (x.expr, ">=" if x.closedlow else ">", edges[b % len(edges)]))
            except ValueError:
                continue
        elif op == "scale":
            d = d * 2
        elif op == "copy":
            d = d.copy()
        elif op == "json":
            d = jsonround(d)
        elif op == "weight":
            d = d.weight("w*u" if b % 2 else None)
        elif op == "filter":
            d = d.filter("u < 2" if b % 2 else None)
        if len(d.axis) == 0:
            d = h
            continue
        printed(d, op)
        equal(d, d.copy(), True, op)
        tags.add("derived")

    # books
    if case["book"]:
        inner = Book(a=mk(other, data), b=mkhist(spec))
        book = Book(first=mk(spec, data), second=inner) if case["deep"] else inner
        book2 = evaluated(str(book), "book")
        require(type(book2) is Book and book2.allkeys() == book.allkeys(), "{0} evaluates to a book of {1}", book, book2.allkeys())
        for name in book.allkeys(onlyhist=True):
            require(repr(book2[name]) == repr(book[name]) and view(book2[name]) == {}, "{0} evaluates to {1} at {2}", book, book2[name], name)
        c = book.cleared()
        for name in c.allkeys(onlyhist=True):
            for k in list(c[name].attachment):
                c[name].detach(k)
        equal(evaluated(str(book), "book"), c, True, "evaluated text and cleared book")      # (looking at the other has made bins of it)
        for x in (book.copy(), Book.fromjson(json.loads(json.dumps(book.tojson())))):
            equal(book, x, True, "copy of a book")
        x = book.copy()
        x.attach("k", 1)
        equal(book, x, False, "a book with another attachment")
        x = book.copy()
        name = x.allkeys(onlyhist=True)[0]
        x[name].attach("zz", 2)
        equal(book, x, False, "a book of a histogram with another attachment")
        x = book.copy()
        x["more"] = mkhist(spec)
        equal(book, x, False, "a book with one more")
        tags.add("book")
    return sorted(tags)
