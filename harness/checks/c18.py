from core import *
import histbook.book


def build(case, which):
    d = case[which]
    cls = getattr(histbook.book, case["cls"])
    if cls is histbook.book.SamplesBook:
        book = cls(["s", "t"])
    else:
        book = cls()
    if case.get("ncls") is not None:
        for n in ("n", "k"):
            if any(p.startswith(n + "/") for p, _ in d["hists"]) and cls is not histbook.book.SamplesBook:
                book[n] = getattr(histbook.book, case["ncls"])()
    for p, data in d["hists"]:
        h = mkhist(case["specs"][p])
        if data is not None:
            pour(h, data)
        book[("s/" if cls is histbook.book.SamplesBook else "") + p] = h
    for k, x in (d["att"] or {}).items():
        book.attach(k, x)
    if "n" in book.keys():
        for k, x in (d["inner"] or {}).items():
            book["n"].attach(k, x)
    if d["empty"]:
        book["e"] = Book()
    return book


def models(case, which):
    pre = "s/" if case["cls"] == "SamplesBook" else ""
    return dict((pre + p, Model(case["specs"][p]).fill(records(data) if data is not None else [])) for p, data in case[which]["hists"])


def plus(x, y):
    out = dict(x)
    for n, m in y.items():
        out[n] = out[n].plus(m) if n in out else m
    return out


def agree(book, ms, what):
    got = book.allitems(onlyhist=True)
    require(sorted(n for n, _ in got) == sorted(ms), "{0} holds {1} instead of {2}", what, [n for n, _ in got], sorted(ms))
    for n, h in got:
        same(view(h), ms[n].view(), what + ", " + n)
        labels_ok(h, ms[n].spec, what + ", " + n)


def merged(x, y):
    out = dict(x or {})
    out.update(y or {})
    return out


def check(case):
    cls = getattr(histbook.book, case["cls"])
    a, b, c = [build(case, n) for n in "abc"]
    ma, mb, mc = [models(case, n) for n in "abc"]
    atts = [json.dumps([x.attachment] + [y.attachment for y in x.allvalues()], sort_keys=True) for x in (a, b, c)]

    def untouched(what):
        for x, m, n, att in zip((a, b, c), (ma, mb, mc), "abc", atts):
            agree(x, m, n + " after " + what)
            require(json.dumps([x.attachment] + [y.attachment for y in x.allvalues()], sort_keys=True) == att, "{0} has other attachments after {1}", n, what)
    ab = a + b
    require(type(ab) is cls, "a + b is a {0}", type(ab))
    agree(ab, plus(ma, mb), "a + b")
    untouched("a + b")
    require(ab.attachment == merged(case["a"]["att"], case["b"]["att"]), "a + b has attachments {0}", ab.attachment)
    if case["cls"] != "SamplesBook":
        if "n" in a.keys() or "n" in b.keys():
            want = merged(case["a"]["inner"] if "n" in a.keys() else None, case["b"]["inner"] if "n" in b.keys() else None)
            require(ab["n"].attachment == want, "(a + b)['n'] has attachments {0} instead of {1}", ab["n"].attachment, want)
    for n in ab.keys():
        x = a[n] if n in a.keys() else b[n]
        require(type(ab[n]) is type(x), "(a + b)[{0!r}] is a {1}", n, type(ab[n]))
    require(set(ab.allkeys()) == set(a.allkeys()) | set(b.allkeys()), "a + b has {0}", ab.allkeys())
    agree((a + b) + c, plus(plus(ma, mb), mc), "(a + b) + c")
    agree(a + (b + c), plus(plus(ma, mb), mc), "a + (b + c)")
    agree(b + a, plus(ma, mb), "b + a")
    agree(a + type(a).fromdicts({}, {}), ma, "a + empty")
    h = build(case, "a")
    g = h
    members = dict(h.allitems())
    h += build(case, "b")
    require(h is g, "a += b gives another object")
    for n, x in members.items():
        require(h[n] is x, "a += b replaced {0} by another object", n)
    agree(h, plus(ma, mb), "a += b")
    require(h.attachment == merged(case["a"]["att"], case["b"]["att"]), "a += b has attachments {0}", h.attachment)
    h = build(case, "a")
    h += b
    h += c
    agree(h, plus(plus(ma, mb), mc), "a += b, a += c")
    x = build(case, "a")
    x += x
    agree(x, plus(ma, ma), "a += a")
    agree(a + a, plus(ma, ma), "a + a")
    untouched("sums")
    # sums share nothing with their operands
    filled = list(ma) and case["cls"] == "Book"
    if filled and len(ab.fields):
        ab.fill(mkdata(case["more"]))
        more = dict((n, Model(m.spec).fill(records(case["more"]))) for n, m in plus(ma, mb).items())
        agree(ab, plus(plus(ma, mb), more), "filling a + b")
        if len(h.fields):
            h.fill(mkdata(case["more"]))
        untouched("filling the sums")
    # scaling
    k = numpy.float64(case["k"]) if case["np"] else case["k"]
    scaled = dict((n, m.times(case["k"])) for n, m in ma.items())
    agree(a * k, scaled, "a * k")
    require(type(a * k) is cls and (a * k).attachment == a.attachment and (a * k).allkeys() == a.allkeys(), "a * k lost its type, attachments or members: {0}", a * k)
    if not case["np"]:
        agree(k * a, scaled, "k * a")
    h = build(case, "a")
    g = h
    members = dict(h.allitems())
    h *= k
    require(h is g, "a *= k gives another object")
    for n, x in members.items():
        require(h[n] is x, "a *= k replaced {0} by another object", n)
    agree(h, scaled, "a *= k")
    untouched("scaling")
    # copy, clear, cleared
    empty = dict((n, Model(m.spec)) for n, m in ma.items())
    for x, what, want in ((a.copy(), "a.copy()", ma), (a.copyonfill(), "a.copyonfill()", ma), (a.cleared(), "a.cleared()", empty)):
        require(type(x) is cls and x.attachment == a.attachment and x.allkeys() == a.allkeys(), "{0} lost its type, attachments or members: {1}", what, x)
        agree(x, want, what)
        x *= 3
        agree(x, dict((n, m.times(3)) for n, m in want.items()), what + " scaled")
        untouched(what + " scaled")
        x.clear()
        agree(x, empty, what + " cleared")
        untouched(what + " cleared")
        require([type(y) for y in x.allvalues()] == [type(y) for y in a.allvalues()], "{0} has members of other types", what)
        require(x.allkeys() == a.allkeys(), "clear() removed members of {0}", what)
    # compatible
    other = a.copy()
    require(a.compatible(other) and other.compatible(a), "a book is not compatible with its copy")
    require(a.compatible(a.cleared()), "a book is not compatible with its cleared copy")
    paths = a.allkeys(onlyhist=True)
    if paths:
        p = paths[len(case["more"]["cols"]) % len(paths)]
        axes = binned(a[p])
        if case["odd"] == "name":
            other[p + "_"] = other[p]
            del other[p]
            require(not a.compatible(other) and not other.compatible(a), "books with different names at {0} are compatible", p)
        elif case["odd"] == "axis":
            other[p] = Hist(*(list(axes) + [hax.bin("zz", 3, 0.0, 1.0)]))
            require(not a.compatible(other) and not other.compatible(a), "books with different axes at {0} are compatible", p)
        elif case["odd"] == "extra":
            other["zz"] = other[p].copy()
            require(not a.compatible(other) and not other.compatible(a), "a book is compatible with one that has another member")
        elif case["odd"] == "extra-nested":
            other[p.rsplit("/", 1)[0] + "/zz" if "/" in p else "zz"] = other[p].copy()
            require(not a.compatible(other) and not other.compatible(a), "a book is compatible with one that has another member beside {0}", p)
        elif case["odd"] == "missing":
            del other[p]
            require(not a.compatible(other) and not other.compatible(a), "a book is compatible with one that lacks {0}", p)
        elif case["odd"] == "empty-nested":
            other["zz"] = Book()
            require(not a.compatible(other) and not other.compatible(a), "a book is compatible with one that has another (empty) book")
        elif case["odd"] == "expr":
            other[p] = Hist(*[x.relabel("u + 17") for x in axes[:1]] + list(axes[1:]) + [hax.profile("u + 18")])
            require(a.compatible(other) and other.compatible(a), "books with the same binning at {0} are not compatible", p)
    # refusals
    untouched("compatible")
    for fcn, what in ((lambda: a + 1, "a + 1"), (lambda: a + None, "a + None"), (lambda: a.__iadd__("a"), "a += str")):
        require(rejects(fcn, TypeError), "{0} is accepted", what)
    if paths:
        require(rejects(lambda: a * "2", TypeError) and rejects(lambda: a * a, TypeError), "multiplying by something else than a number is accepted")
        require(rejects(lambda: a + a[paths[0]], TypeError), "adding a histogram to a book is accepted")
        bad = a.copy()
        bad[paths[0]] = Hist(*(list(a[paths[0]].axis) + [hax.cut("zz > 3")]))
        require(rejects(lambda: a + bad, TypeError) and rejects(lambda: bad + a, TypeError), "adding books with different axes at {0} is accepted", paths[0])
    untouched("refused operations")
    tags = [case["cls"]]
    if set(ma) & set(mb):
        tags.append("common-members")
    if set(ma) ^ set(mb):
        tags.append("one-sided-members")
    if any("/" in n for n in ma):
        tags.append("nested")
    return tags if any(len(m.view()) for m in ma.values()) and mb else []
