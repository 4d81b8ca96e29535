import collections
import fnmatch

from core import *
import histbook.book


def newhist():
    return Hist(hax.bin("x", 2, 0.0, 1.0))


class Nested(collections.OrderedDict):
    """Model of a nested book; remembers which object it is once that has been seen."""
    real = None


def newbook(kind):
    """A real book and its model."""
    if kind == "samples":
        h = newhist()
        b = histbook.book.SamplesBook(["a", "s"], {"b": h})
        y = Nested([(n, Nested(b[n].items())) for n in ("a", "s")])
    elif kind == "full" or kind == "channels" or kind == "generic":
        h1, h2 = newhist(), newhist()
        b = {"full": Book, "channels": histbook.book.ChannelsBook, "generic": histbook.book.GenericBook}[kind]()
        b["a"] = h1
        b["m/b"] = h2
        y = Nested([("a", h1), ("m", Nested([("b", h2)]))])
    else:
        b = histbook.book.GenericBook() if kind == "emptygeneric" else Book()
        b.attach("note", 1)
        y = Nested()
    y.real = b
    return b, y


def find(model, path):
    """The item at a path, or None."""
    if path in model:
        return model[path]
    if "/" in path:
        head, tail = path.split("/", 1)
        if isinstance(model.get(head), dict):
            return find(model[head], tail)
    return None


def put(model, path, x):
    """False if a histogram is in the way."""
    if "/" not in path:
        model[path] = x
        return True
    head, tail = path.split("/", 1)
    if head not in model:
        model[head] = Nested()
    if not isinstance(model[head], dict):
        return False
    return put(model[head], tail, x)


def remove(model, path):
    if path in model:
        del model[path]
        return True
    if "/" in path:
        head, tail = path.split("/", 1)
        if isinstance(model.get(head), dict):
            return remove(model[head], tail)
    return False


def flat(model, recursive, onlyhist, prefix=""):
    out = []
    for n, x in model.items():
        if not onlyhist or not isinstance(x, dict):
            out.append((prefix + n, x))
        if recursive and isinstance(x, dict):
            out += flat(x, recursive, onlyhist, prefix + n + "/")
    return out


def matches(real, want):
    """The histogram itself, or a book holding the same things."""
    if isinstance(want, dict):
        if isinstance(want, Nested) and want.real is None:
            want.real = real
        return isinstance(real, histbook.book.GenericBook) and (want.real is real if isinstance(want, Nested) else True) and same_items(real.items(), list(want.items()))
    return real is want


def same_items(got, want):
    return [n for n, _ in got] == [n for n, _ in want] and all(matches(x, y) for (_, x), (_, y) in zip(got, want))


def show(pairs):
    return [n for n, _ in pairs]


def agree(book, model, what):
    for recursive in (False, True):
        for onlyhist in (False, True):
            want = flat(model, recursive, onlyhist)
            opts = dict(recursive=recursive, onlyhist=onlyhist)
            got = book.items(**opts)
            require(same_items(got, want), "{0}: items({1}) are {2} instead of {3}", what, opts, show(got), show(want))
            require(book.keys(**opts) == [n for n, _ in want], "{0}: keys({1}) are {2} instead of {3}", what, opts, book.keys(**opts), show(want))
            require(all(x is y for x, y in zip(book.values(**opts), [x for _, x in got])) and len(book.values(**opts)) == len(got), "{0}: values({1}) are not those of items", what, opts)
            require(list(book.iterkeys(**opts)) == [n for n, _ in want] and same_items(list(book.iteritems(**opts)), want) and len(list(book.itervalues(**opts))) == len(want), "{0}: iterators with {1} disagree", what, opts)
            if recursive:
                require(book.allkeys(onlyhist=onlyhist) == [n for n, _ in want], "{0}: allkeys(onlyhist={1}) are {2} instead of {3}", what, onlyhist, book.allkeys(onlyhist=onlyhist), show(want))
                require(same_items(book.allitems(onlyhist=onlyhist), want) and all(x is y for x, y in zip(book.allvalues(onlyhist=onlyhist), [x for _, x in got])), "{0}: allitems/allvalues disagree", what)
    require(len(book) == len(model), "{0}: len is {1} instead of {2}", what, len(book), len(model))
    require(same_items(list(book), flat(model, True, True)), "{0}: iteration gives {1} instead of {2}", what, list(book), show(flat(model, True, True)))
    for n, x in flat(model, True, False):
        require(n in book, "{0}: {1!r} is not in the book", what, n)
        require(matches(book[n], x), "{0}: item {1!r} is {2}", what, n, book[n])
    for n in ("zz", "n/zz", "a/zz", "zz/a"):
        if find(model, n) is None:
            require(n not in book, "{0}: {1!r} is in the book", what, n)


def glob(model, pattern):
    return [x for n, x in flat(model, True, False) if fnmatch.fnmatchcase(n, pattern)]


def check(case):
    cls = getattr(histbook.book, case["cls"])
    start = case["start"]
    model = collections.OrderedDict()
    if start["how"] == "empty":
        book = cls()
    elif start["how"] == "varargs":
        hs = [newhist() for _ in range(start["n"])]
        book = cls(*hs)
        for i, h in enumerate(hs):
            model[str(i)] = h
    else:
        first = collections.OrderedDict((n, newhist()) for n in start["names"])
        kw = collections.OrderedDict((n, newhist()) for n in start.get("kw", ()))
        try:
            book = cls(**first) if start["how"] == "kwargs" else cls(first, **kw)
        except KeyError:
            book = None
        ok = True
        for n, h in list(first.items()) + list(kw.items()):
            ok = ok and put(model, n, h)
        require((book is not None) == ok, "constructing from {0} {1} is{2} refused", list(first), list(kw), "" if ok else " not")
        if not ok:
            return []
    agree(book, model, "constructor")
    tags = []
    for k, op in enumerate(case["ops"]):
        name = op["op"]
        what = "step %d (%s)" % (k, op)
        if name == "set":
            if op["kind"] == "hist":
                x = y = newhist()
            else:
                x, y = newbook(op["kind"])
            try:
                book[op["path"]] = x
                done = True
            except KeyError:
                done = False
            trial = put(model, op["path"], y)
            require(done == trial, "{0}: assignment is{1} refused", what, "" if trial else " not")
            if trial and "/" in op["path"]:
                tags.append("nested-set")
            if not trial:
                tags.append("hist-in-the-way")
        elif name == "del":
            try:
                del book[op["path"]]
                done = True
            except KeyError:
                done = False
            require(remove(model, op["path"]) == done, "{0}: deletion {1}", what, "succeeds" if done else "fails")
            if done:
                tags.append("deleted")
        elif name == "get":
            want = find(model, op["path"])
            try:
                got = book[op["path"]]
                require(want is not None and matches(got, want), "{0}: found {1}", what, got)
            except KeyError:
                require(want is None, "{0}: not found", what)
        elif name == "glob":
            got, want = book[op["pattern"]], glob(model, op["pattern"])
            require(isinstance(got, list) and len(got) == len(want) and all(matches(x, y) for x, y in zip(got, want)), "{0}: finds {1} of {2}", what, got, book.allkeys())
            if want:
                tags.append("glob-some")
        elif name == "delglob":
            names = [n for n, _ in flat(model, True, False) if fnmatch.fnmatchcase(n, op["pattern"])]
            del book[op["pattern"]]
            for n in names:
                remove(model, n)
            if names:
                tags.append("delglob-some")
        elif name == "bad":
            fcn = [lambda: book.__setitem__(op["path"], 3), lambda: book.__setitem__(3, newhist()), lambda: book[3], lambda: book.__delitem__(3), lambda: book.__setitem__(op["path"], None), lambda: book.__setitem__(op["path"], {"a": newhist()})][op["which"]]
            require(rejects(fcn, TypeError), "{0}: accepted", what)
        elif name == "pop":
            want = find(model, op["path"])
            sentinel = object()
            try:
                got = book.pop(op["path"], sentinel) if op["default"] else book.pop(op["path"])
            except KeyError:
                got = None
            if want is None:
                require(got is (sentinel if op["default"] else None), "{0}: pop gives {1}", what, got)
            else:
                require(matches(got, want), "{0}: pop gives {1}", what, got)
                remove(model, op["path"])
                tags.append("popped")
        elif name == "setdefault":
            h = newhist()
            want = find(model, op["path"])
            try:
                got = book.setdefault(op["path"], h)
            except KeyError:
                require(want is None and not put(model, op["path"], h), "{0}: refused", what)
            else:
                if want is None:
                    require(put(model, op["path"], h) and got is h, "{0}: setdefault gives {1}", what, got)
                else:
                    require(matches(got, want), "{0}: setdefault gives {1}", what, got)
        elif name == "update":
            new = collections.OrderedDict((n, newhist()) for n in op["paths"])
            kw = dict((n, newhist()) for n in op["kw"])
            try:
                book.update(new, **kw)
                done = True
            except KeyError:
                done = False
            ok = True
            for n, h in list(new.items()) + list(kw.items()):
                ok = ok and put(model, n, h)
            require(ok == done, "{0}: update is{1} refused", what, "" if ok else " not")
        elif name == "inner":
            want = find(model, op["path"])
            if not isinstance(want, dict):
                continue
            b = book[op["path"]]
            if op["del"]:
                try:
                    del b[op["name"]]
                except KeyError:
                    pass
                remove(want, op["name"])
            else:
                h = newhist()
                try:
                    b[op["name"]] = h
                except KeyError:
                    pass
                put(want, op["name"], h)
            tags.append("inner-change")
        agree(book, model, what)
    if any(isinstance(x, dict) for x in model.values()):
        tags.append("nested-at-end")
    return tags if len(case["ops"]) >= 2 and tags else []
