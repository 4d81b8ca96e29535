from core import *
import copy

NUMERIC = ("x", "u", "v", "w")


def observe(x):
    """A comparable description of something given to the library."""
    if isinstance(x, numpy.ndarray):
        return ("array", x.dtype.str, x.shape, x.strides, x.flags.writeable, x.tobytes() if x.dtype.kind != "O" else repr(x.tolist()))
    if isinstance(x, hax.Axis):
        return ("axis", type(x), repr(x), hash(x), json.dumps(x.tojson(), sort_keys=True), repr(x.keys()) if isinstance(x, FixedAxis) else None)
    if isinstance(x, Hist):
        return ("hist", id(x)) + full(x)
    if isinstance(x, dict):
        return ("dict", type(x), [(n, id(y), observe(y)) for n, y in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x), [observe(y) for y in x])
    return (type(x), repr(x))


def arrays_of(st, only=None):
    out = mkdata(st["data"], only)
    if st["view"]:
        for n in list(out):
            base = numpy.repeat(out[n], 2)
            out[n] = base[::2]
    if st["alias"] and "u" in out and "v" in out:
        out["v"] = out["u"]
    return out


def recs_of(st):
    cols = dict(st["data"]["cols"])
    if st["alias"] and "u" in cols and "v" in cols:
        cols["v"] = cols["u"]
    return records({"cols": cols, "n": st["data"]["n"]})


def fill(target, arrays, how):
    if how == "kw":
        target.fill(**arrays)
    elif how == "mixed":
        names = sorted(arrays)
        target.fill(dict((n, arrays[n]) for n in names[::2]), **dict((n, arrays[n]) for n in names[1::2]))
    else:
        target.fill(arrays)


def check(case):
    specs = case["specs"]
    hists, models = [], []
    for s in specs:
        axes = [mkaxis(a) for a in s["axes"]]
        opts = {}
        for k, name in (("weight", "weight"), ("filter", "filter"), ("defs", "defs"), ("att", "attachment")):
            if s.get(k) is not None:
                opts[name] = copy.deepcopy(s[k])
        before = observe(axes), observe(opts)
        h = Hist(*axes, **opts)
        require((observe(axes), observe(opts)) == before, "Hist({0}, {1}) modified its arguments", axes, opts)
        hists.append(h)
        models.append(Model(s))
        # what is given to the constructor stays the caller's
        h.attach("mine", 1).detach("mine")
        h.defs["another"] = "u"
        del h.defs["another"]
        require((observe(axes), observe(opts)) == before, "changing the histogram modified what it was made from")
        if s.get("att"):
            h.attachment["n"] = 17
            require((observe(axes), observe(opts)) == before, "changing the histogram's attachment modified the dict it was made from")
            h.attachment["n"] = s["att"]["n"]
    members = {}
    for i, h in enumerate(hists):
        members["h%d" % i] = h
    given = dict(members)
    before = observe(given)
    if case["nested"] and len(hists) > 1:
        inner = Book(dict((n, members[n]) for n in sorted(members)[1:]))
        book = Book({"h0": members["h0"], "in": inner})
    else:
        book = Book(given)
    require(observe(given) == before, "Book(dict) modified the dict or its histograms")
    def whole():
        return [full(h) for h in hists], repr(book.allkeys()), repr(book.attachment), sorted(book.fields)
    twin = None
    if case["copied"]:
        twin = [getattr(h, case["copied"])() for h in hists]
        twinstate = [full(h) for h in twin]
    tags = set()
    bad = False
    for st in case["steps"]:
        who = st["who"]
        target = book if who < 0 else hists[who]
        fields = sorted(target.fields)
        state = whole()
        if st["op"] == "fill":
            arrays = arrays_of(st)
            if st["how"] == "lists" and (st["data"]["n"] or not any(n in ("c", "d") for n in arrays)):
                arrays = dict((n, x.tolist()) for n, x in arrays.items())
            before = observe(arrays)
            fill(target, arrays, st["how"])
            require(observe(arrays) == before, "fill modified the arrays it was given")
            for i in range(len(specs)):
                if who < 0 or who == i:
                    models[i].fill(recs_of(st))
            for i, h in enumerate(hists):
                same(view(h), models[i].view(), "histogram %d%s" % (i, " (after a failed fill)" if bad else ""))
            tags.add("fill")
            continue
        arrays = arrays_of(st)
        what = None
        if st["op"] in ("missing", "length", "type"):
            names = sorted(set(fields[k % len(fields)] for k in st["pick"]))
        if st["op"] == "missing":
            for n in names:
                del arrays[n]
            what = "a fill without %s" % names
        elif st["op"] == "length":
            if len(fields) < 2:
                continue
            if len(names) == len(fields):
                names = names[1:]
            n = st["data"]["n"]
            m = max(0, n + st["delta"])
            if st.get("one"):
                m = 1           # one value is not a constant
            if m == n:
                m = n + 1
            for f in names:
                arrays[f] = numpy.resize(arrays[f], m) if n else numpy.zeros(m, dtype=arrays[f].dtype)
            what = "a fill with %d values of %s and %d of the others" % (m, names, n)
        elif st["op"] == "type":
            for f in names:
                n = st["data"]["n"]
                arrays[f] = {"strings": ["text"] * n, "nones": [None] * n, "objects": [object() for _ in range(n)], "lists": [[1.0, 2.0]] * n}[st["bad"]]
                if st["bad"] in ("nones", "objects"):
                    arrays[f] = numpy.array(arrays[f], dtype=object)
            before = [observe(arrays[f]) for f in sorted(arrays) if f not in names]
            try:
                fill(target, arrays, st["how"])
            except Exception:
                require(whole() == state, "a fill refused because of {0} for {1} changed something", st["bad"], names)
                tags.add("refused-type")
                bad = True
                require(before == [observe(arrays[f]) for f in sorted(arrays) if f not in names], "a refused fill modified the arrays it was given")
                continue
            return []       # accepted: what it means is not specified
        if what is not None:
            before = observe(arrays)
            require(rejects(lambda: fill(target, arrays, st["how"])), "{0} is accepted", what)
            require(observe(arrays) == before, "{0} modified the arrays it was given", what)
            after = whole()
            require(after == state, "{0} changed something: {1} became {2}", what, state, after)
            if twin is not None:
                require([full(h) for h in twin] == twinstate, "{0} changed copies made before", what)
            bad = True
            tags.add(st["op"])
            if who < 0:
                tags.add("book-" + st["op"])
        else:
            refused(book, hists, specs, st, whole, tags)
            bad = True
    if twin is not None:
        require([full(h) for h in twin] == twinstate, "filling changed copies made before")
    given_unchanged(hists, specs, tags)
    return sorted(tags) if "fill" in tags and bad else []


def refused(book, hists, specs, st, whole, tags):
    """Calls other than fill that cannot be done."""
    h = hists[st["pick"][0] % len(hists)]
    other = Hist(hax.bin("other", 3, 0.0, 1.0), hax.cut("other > 0"))
    other.fill(other=numpy.array([0.1, 0.5]))
    odd = Book()
    for n, x in book.allitems(onlyhist=True):
        odd[n] = x.copy()
    last = odd.allkeys(onlyhist=True)[-1]
    odd[last] = other
    new = Book()
    new["new"] = other.copy()
    for n, x in odd.items():
        new[n] = x
    calls = [
        ("hist += other", lambda: h.__iadd__(other)),
        ("hist + other", lambda: h + other),
        ("hist * 'x'", lambda: h * "x"),
        ("hist *= 'x'", lambda: h.__imul__("x")),
        ("hist *= hist", lambda: h.__imul__(h)),
        ("book += odd", lambda: book.__iadd__(odd)),
        ("book += new members, then odd", lambda: book.__iadd__(new)),
        ("book + odd", lambda: book + odd),
        ("book *= 'x'", lambda: book.__imul__("x")),
        ("select unknown", lambda: h.select("nothing > 3")),
        ("project unknown", lambda: h.project("nothing")),
        ("drop unknown", lambda: h.drop("nothing")),
        ("rebin unknown", lambda: h.rebin("nothing", [1, 2])),
        ("table unknown", lambda: h.table("nothing")),
        ("fraction unknown", lambda: h.fraction("nothing")),
        ("group", lambda: Hist.group(a=h, b=other)),
        ("group books", lambda: Book.group(a=book, b=odd)),
        ("togroup", lambda: h.togroup(a=h, b=other)),
        ("set something else", lambda: book.__setitem__("new", 3)),
        ("set inside a histogram", lambda: book.__setitem__("h0/x", other)),
        ("delete unknown", lambda: book.__delitem__("nothing")),
        ("get unknown", lambda: book["nothing"]),
        ("option", lambda: Hist(*h.axis, nothing=1)),
        ("detach", lambda: h.detach("nothing")),
        ("book detach", lambda: book.detach("nothing")),
    ]
    state = whole()
    ostate = full(other), [full(x) for x in odd.allvalues(onlyhist=True)]
    for name, call in calls:
        require(rejects(call), "{0} is accepted", name)
        require(whole() == state, "{0} was refused but changed something", name)
        require((full(other), [full(x) for x in odd.allvalues(onlyhist=True)]) == ostate, "{0} was refused but changed its argument", name)
    tags.add("refused-calls")


def given_unchanged(hists, specs, tags):
    """Axis objects, lists and dicts handed to other operations."""
    for h, s in zip(hists, specs):
        state = full(h)
        own = list(h.axis)
        copies = [a.copy() for a in own]
        seen = observe(own), observe(copies)
        bins = [a for a in copies if not isinstance(a, ProfileAxis)]
        ps = [a for a in copies if isinstance(a, ProfileAxis)]
        h.project(*bins[:1])
        h.table(*ps)
        if ps:
            h.drop(ps[0])
        Hist(*copies)
        h2 = Hist(*own[::-1])
        h2.cleared().copy()
        for a in copies:
            if isinstance(a, (hax.bin, hax.split)):
                sp = [x for x in s["axes"] if x["e"] == a.expr][0]
                e = edges_of(sp)
                if len(e) >= 3:
                    for edges in ([e[2], e[0]], numpy.array([e[-1], e[0]])):
                        x = observe(edges)
                        try:
                            h.rebin(a, edges)
                        except Exception:
                            pass        # whether this is accepted is decided elsewhere
                        require(observe(edges) == x, "rebin modified its edges {0}", edges)
                        tags.add("edges")
        edges = [2.0, -1.0, 0.5]
        arr = numpy.array(edges)
        x = observe(edges), observe(arr)
        hax.split("u", edges).copy()
        hax.split("u", arr).copy()
        require((observe(edges), observe(arr)) == x, "split modified its edges")
        d = {"a": h, "b": h.copy()}
        x = observe(d)
        g = Hist.group(by="made_up", **d)
        g.togroup(**d)
        g *= 2
        require(observe(d) == x, "group, togroup and scaling of the group modified the histograms given")
        vec = [0.5, -1]
        x = observe(vec)
        h.systematic(vec).copy()
        require(observe(vec) == x, "systematic modified its vector")
        require((observe(own), observe(copies)) == seen, "axis objects were modified: {0} became {1}", seen, (observe(own), observe(copies)))
        require(full(h) == state, "the histogram was modified by looking at it")
