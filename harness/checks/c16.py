from core import *
from checks.c03 import DataFrame


def leaf(book, path, direct):
    """(the innermost book, the last part of the path), creating books on the way if they are set directly."""
    parts = path.split("/")
    if not direct:
        return book, path
    for p in parts[:-1]:
        if p not in book.keys():
            return book, path
        book = book[p]
        path = path.split("/", 1)[1]
    return book, path


def fillone(h, data, only):
    h.fill(mkdata(data, only=h.fields if only else None))


def compare(book, twins, what, view=view):
    got = book.allitems(onlyhist=True)
    require(sorted(n for n, _ in got) == sorted(twins), "{0}: the book holds {1} instead of {2}", what, [n for n, _ in got], sorted(twins))
    for n, h in got:
        same(view(h), view(twins[n]), "%s: %s, %r" % (what, n, h))


def usable(spec, datas):
    """Can be made, needs some field, and can be filled alone with these data."""
    try:
        for d in datas:
            h = mkhist(spec)
            if not set(h.fields) - set(["pi", "e"]):
                return False
            fillone(h, d, True)
            view(h)
    except Exception:
        return False
    return True


def check(case):
    datas = [op["data"] for op in case["ops"] if "data" in op]
    see = (lambda x: view(jsonround(x))) if case.get("unseen") else view
    book = Book()
    twins = {}       # path -> a histogram that is only ever filled alone
    tags = []
    fills = 0
    for k, op in enumerate(case["ops"]):
        name = op["op"]
        what = "step %d (%s)" % (k, name)
        if name == "set":
            if not usable(op["spec"], datas):
                continue
            b, p = leaf(book, op["path"], op["direct"])
            b[p] = mkhist(op["spec"])
            twins[op["path"]] = mkhist(op["spec"])
            if fills:
                tags.append("changed-after-fill" + ("-inside" if b is not book else ""))
        elif name == "setbook":
            op["specs"] = [s for s in op["specs"] if usable(s, datas)]
            new = Book()
            for i, s in enumerate(op["specs"]):
                new["ab"[i]] = mkhist(s)
            book[op["path"]] = new
            for n in list(twins):
                if n.startswith(op["path"] + "/"):
                    del twins[n]
            for i, s in enumerate(op["specs"]):
                twins[op["path"] + "/" + "ab"[i]] = mkhist(s)
        elif name == "del":
            if op["path"] not in twins:
                continue
            b, p = leaf(book, op["path"], op["direct"])
            del b[p]
            del twins[op["path"]]
            tags.append("deleted")
        elif name == "move":
            if op["path"] not in twins:
                continue
            h, t = book[op["path"]], twins[op["path"]]
            do = {"copy": lambda x: x.copy(), "copyonfill": lambda x: x.copyonfill(), "cleared": lambda x: x.cleared(), "weight": lambda x: x.weight("w + 1"), "filter": lambda x: x.filter("u > 0 and q"), "json": jsonround}[op["how"]]
            new = do(h)
            # the twin of a copy: same contents, shares nothing
            twin = jsonround(do(jsonround(t)))
            book[op["to"]] = new
            twins[op["to"]] = twin
            tags.append("member-" + op["how"])
        elif name == "copy":
            # go on with a copy of the book; the old one is filled with something else and must not matter
            old = book
            if op["how"] == "copy":
                book = book.copy()
            elif op["how"] == "copyonfill":
                book = book.copyonfill()
            elif op["how"] == "json":
                book = jsonround(book)
            elif op["how"] == "cleared":
                book = book.cleared()
                twins = dict((n, t.cleared()) for n, t in twins.items())
            else:
                book = book + book
                twins = dict((n, t + t) for n, t in twins.items())
            if len(twins):
                old.fill(u=1.0, v=2.0, w=1.0, i=1, j=2, c="a", p=True, q=True)
            tags.append("book-" + op["how"])
        elif name == "alone":
            if op["path"] not in twins:
                continue
            for h in (book[op["path"]], twins[op["path"]]):
                fillone(h, op["data"], True)
        elif name == "fill":
            want = sorted(set(f for t in twins.values() for f in t.fields))
            require(sorted(book.fields) == want, "{0}: the book's fields are {1}, its members' {2}", what, book.fields, want)
            target, under = book, ""
            if op["sub"] and "n" in book.keys():
                target, under = book["n"], "n/"
            arrays = mkdata(op["data"], only=target.fields if op["only"] else None)
            if not arrays:
                arrays = mkdata(op["data"])
            if op["kw"]:
                if len(arrays) % 2:
                    target.fill(**arrays)
                else:
                    target.fill(DataFrame(arrays))
            else:
                target.fill(arrays)
            for n, t in twins.items():
                if n.startswith(under):
                    fillone(t, op["data"], op["only"])
            fills += 1
            n = len([x for x in twins if x.startswith(under)])
            tags.append("members-%d" % min(n, 5))
            if any("/" in x for x in twins):
                tags.append("nested")
        compare(book, twins, what, see)
    return tags if any(len(view(t)) for t in twins.values()) and len(twins) >= 2 else []
