from core import *
import fnmatch
import pickle
import histbook.book
from histbook.book import SamplesBook, ChannelsBook, SystematicsBook, ViewBook


def again(book, how):
    if how == "copy":
        return book.copy()
    if how == "copyonfill":
        return book.copyonfill()
    if how == "json":
        return type(book).fromjson(json.loads(json.dumps(book.tojson())))
    return pickle.loads(pickle.dumps(book))


class Entry(object):
    """A histogram and what it should hold."""

    def __init__(self, hist, model):
        self.hist = hist
        self.model = model


def fill_all(book, entries, data, only):
    arrays = mkdata(data, only=book.fields if only else None)
    if not len(book.fields):
        return
    book.fill(arrays)
    recs = records(data)
    for e in entries:
        e.model = e.model.plus(Model(e.model.spec).fill(recs))


def check(case):
    if "sys" in case:
        return systematics(case["sys"])
    templates = {}
    for p, s, filled in case["specs"]:
        h, m = mkhist(s), Model(s)
        if filled:
            pour(h, case["first"])
            m.fill(records(case["first"]))
        templates[p] = Entry(h, m)
    if case["how"] == "pos" and not any("/" in p for p in templates):
        names = dict((p, str(i)) for i, p in enumerate(templates))
        book = SamplesBook(case["samples"], *[e.hist for e in templates.values()])
    elif case["how"] == "kw":
        names = dict((p, p) for p in templates)
        book = SamplesBook(case["samples"], **dict((p, e.hist) for p, e in templates.items()))
    elif case["how"] == "assign":
        names = dict((p, p) for p in templates)
        book = SamplesBook(case["samples"])
        require(sorted(book.keys()) == sorted(case["samples"]), "a SamplesBook of {0} has {1}", case["samples"], book.keys())
        for s in case["samples"]:
            for p, e in templates.items():
                book[s + "/" + p] = e.hist.copyonfill()
    else:
        names = dict((p, p) for p in templates)
        book = SamplesBook(case["samples"], dict((p, e.hist) for p, e in templates.items()))
    require(type(book) is SamplesBook, "{0}", book)
    pre = ""
    # paths are given without the channel
    if case["channels"]:
        other = SamplesBook(case["samples"], dict((p, e.hist) for p, e in templates.items()))
        book = ChannelsBook({"sr": book, "cr": other})
        pre = "sr/"
    state = {}
    for s in case["samples"]:
        for p, e in templates.items():
            state[pre + s + "/" + names[p]] = Entry(None, e.model)
            if case["channels"]:
                state["cr/" + s + "/" + p] = Entry(None, e.model)

    def relink():
        got = dict(book.allitems(onlyhist=True))
        require(set(got) == set(state), "the book holds {0} instead of {1}", sorted(got), sorted(state))
        for n, e in state.items():
            e.hist = got[n]
        require(len(set(id(e.hist) for e in state.values())) == len(state), "histograms of different samples are the same object")
    relink()
    if case["att"]:
        (book["sr"] if case["channels"] else book)[case["samples"][0]].attach("k", 1)
    views = []      # (view, {path: entry})
    others = []     # histograms no longer in the book

    see = (lambda x: view(jsonround(x))) if case.get("unseen") else view

    def verify(what):
        got = dict(book.allitems(onlyhist=True))
        require(set(got) == set(state), "{0}: the book holds {1} instead of {2}", what, sorted(got), sorted(state))
        for n, e in state.items():
            require(got[n] is e.hist, "{0}: {1} was replaced", what, n)
            same(see(e.hist), e.model.view(), "%s: %s" % (what, n))
        for p, e in templates.items():
            same(see(e.hist), e.model.view(), "%s: the original %s" % (what, p))
        for e in others:
            same(see(e.hist), e.model.view(), "%s: a histogram that was removed" % what)
    verify("at first")
    tags = []

    def take(pat):
        want = dict((n, e) for n, e in state.items() if fnmatch.fnmatchcase(n, pat))
        if not want:
            require(rejects(lambda: book.view(pat), (ValueError, KeyError)), "view({0!r}) of {1}, which matches nothing", pat, sorted(state))
            return None, want
        v = book.view(pat)
        require(isinstance(v, ViewBook), "view({0!r}) is a {1}", pat, type(v))
        got = dict(v.allitems(onlyhist=True))
        require(set(got) == set(want), "view({0!r}) holds {1} instead of {2}", pat, sorted(got), sorted(want))
        for n, e in want.items():
            require(got[n] is e.hist, "view({0!r}) has a copy of {1}", pat, n)
        require(sorted(v.fields) == sorted(set(f for e in want.values() for f in e.hist.fields)), "view({0!r}) has fields {1}", pat, v.fields)
        return v, want
    for k, op in enumerate(case["ops"]):
        name = op["op"]
        what = "step %d (%s)" % (k, name)
        base = (book["sr"] if case["channels"] else book)
        if name == "view":
            pat = op["pat"]
            if case["channels"]:
                pat = ("sr/", "*/", "?r/", "cr/")[k % 4] + pat
            v, want = take(pat)
            if v is not None:
                fill_all(v, want.values(), op["data"], op["only"])
                views.append((v, want))
                if 0 < len(want) < len(state):
                    tags.append("partial")
            what += " " + pat
        elif name == "old":
            if views:
                v, want = views[op["i"] % len(views)]
                fill_all(v, want.values(), op["data"], op["only"])
                tags.append("again")
        elif name == "sample":
            if op["s"] in base.keys():
                fill_all(base[op["s"]], [e for n, e in state.items() if n.startswith(pre + op["s"] + "/")], op["data"], False)
        elif name == "alone":
            n = pre + op["s"] + "/" + names[op["p"]]
            if n in state:
                fill_all(book[n], [state[n]], op["data"], False)
        elif name == "template":
            e = templates[op["p"]]
            fill_all(e.hist, [e], op["data"], False)
            tags.append("template")
        elif name == "set":
            n = pre + op["s"] + "/" + op["p"]
            spec = case["extra"][op["spec"]]
            if any(m.startswith(n + "/") for m in state):
                continue
            h = mkhist(spec)
            if n in state:
                others.append(state[n])
            book[n] = h
            state[n] = Entry(h, Model(spec))
        elif name == "del":
            n = pre + op["s"] + "/" + names[op["p"]]
            if n in state:
                del book[n]
                others.append(state.pop(n))
        elif name == "copy":
            old = book
            for e in list(state.values()):
                others.append(Entry(e.hist, e.model))
            oldviews = [(v, [o for n, e in want.items() for o in others if o.hist is e.hist]) for v, want in views]
            book = again(book, op["how"])
            require(type(book) is type(old) and [type(x) for x in book.allvalues()] == [type(x) for x in old.allvalues()], "{0} of a book gives {1}", op["how"], book)
            relink()
            for o in others:
                require(not any(e.hist is o.hist for e in state.values()), "{0} shares histograms with the original", op["how"])
            views = [(v, dict((i, o) for i, o in enumerate(os))) for v, os in oldviews]
            tags.append(op["how"])
        elif name == "clear":
            base[op["s"]].clear()
            for n, e in state.items():
                if n.startswith(pre + op["s"] + "/"):
                    e.model = Model(e.model.spec)
        verify(what)
    take(case["bad"])
    return tags if any(e.model.view() for e in state.values()) and len(case["samples"]) > 0 else []

################################################################ systematics


def binning(spec):
    g, f, p = split_axes(spec)
    return json.dumps([dict((k, sorted(set(v)) if k == "edges" else v) for k, v in a.items() if k != "e") for a in g + f], sort_keys=True)


def compatible(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(compatible(x[n], y[n]) for n in x)
    if isinstance(x, Entry) and isinstance(y, Entry):
        return binning(x.model.spec) == binning(y.model.spec)
    return False


def leaves(tree):
    for n, x in tree.items():
        if isinstance(x, dict):
            for m, y in leaves(x):
                yield n + "/" + m, y
        else:
            yield n, x


def valid(tree):
    top = list(tree.values())
    return all(compatible(x, y) for x in top for y in top) and all(e.model.spec.get("sys") is not None for n, e in leaves(tree))


def copytree(tree):
    return dict((n, copytree(x) if isinstance(x, dict) else x) for n, x in tree.items())


def entry(spec):
    return Entry(mkhist(spec), Model(spec))


def systematics(case):
    tree = dict((n, entry(s)) for n, s in case["start"])
    tags = []
    make = lambda: SystematicsBook(dict((n, e.hist) for n, e in tree.items()))
    if not valid(tree):
        require(rejects(make, ValueError), "a SystematicsBook accepts {0}", [e.hist for e in tree.values()])
        tree = {}
        tags.append("refused")
    book = make()

    see = (lambda x: view(jsonround(x))) if case.get("unseen") else view

    def verify(what):
        got = dict(book.allitems(onlyhist=True))
        want = dict(leaves(tree))
        require(set(got) == set(want), "{0}: the book holds {1} instead of {2}", what, sorted(got), sorted(want))
        require(sorted(book.keys()) == sorted(tree), "{0}: the book has {1} instead of {2}", what, sorted(book.keys()), sorted(tree))
        for n, e in want.items():
            require(got[n] is e.hist, "{0}: {1} was replaced", what, n)
            same(see(e.hist), e.model.view(), "%s: %s" % (what, n))
            require(list(got[n].get("systematic")) == list(e.model.spec["sys"]), "{0}: {1} has systematic {2}", what, n, got[n].attachment)
    verify("at first")
    for k, op in enumerate(case["ops"]):
        name = op["op"]
        what = "step %d (%s)" % (k, name)
        if name in ("set", "setbook"):
            new = copytree(tree)
            if name == "set":
                value = entry(op["spec"])
                obj = value.hist
            else:
                value = dict((n, entry(s)) for n, s in op["specs"])
                obj = Book(dict((n, e.hist) for n, e in value.items()))
            parts = op["p"].split("/")
            node = new
            possible = True
            for q in parts[:-1]:
                node = node.setdefault(q, {})
                if not isinstance(node, dict):
                    possible = False
                    break
            if possible:
                node[parts[-1]] = value
                possible = valid(new)
            try:
                book[op["p"]] = obj
            except (ValueError, KeyError) as err:
                require(not possible, "{0}: setting {1!r} to {2} is refused: {3}", what, op["p"], obj, err)
                tags.append("refused")
            else:
                require(possible, "{0}: {1!r} is set to {2}, which is not compatible with the others or has no systematic, in {3}", what, op["p"], obj, book)
                tree = new
                if len(tree) > 1:
                    tags.append("accepted")
        elif name == "del":
            new = copytree(tree)
            parts = op["p"].split("/")
            node = new
            for q in parts[:-1]:
                node = node.get(q, {}) if isinstance(node, dict) else {}
            possible = isinstance(node, dict) and parts[-1] in node
            if possible:
                del node[parts[-1]]
                possible = valid(new)
            try:
                del book[op["p"]]
            except (ValueError, KeyError) as err:
                require(not possible, "{0}: deleting {1!r} is refused: {2}", what, op["p"], err)
            else:
                require(possible, "{0}: {1!r} is deleted, which leaves {2}", what, op["p"], book)
                tree = new
                tags.append("deleted")
        elif name == "copy":
            old, want = book, dict(leaves(tree))
            views = dict((n, view(e.hist)) for n, e in want.items())
            book = again(book, op["how"])
            require(type(book) is SystematicsBook, "{0} of a SystematicsBook gives {1}", op["how"], type(book))
            got = dict(book.allitems(onlyhist=True))
            require(set(got) == set(want), "{0}: {1} instead of {2}", what, sorted(got), sorted(want))

            def link(t, pre):
                return dict((n, link(x, pre + n + "/") if isinstance(x, dict) else Entry(got[pre + n], x.model)) for n, x in t.items())
            tree = link(tree, "")
        elif name == "fill":
            fill_all(book, [e for n, e in leaves(tree)], op["data"], k % 2 == 0)
            if name == "copy":
                pass
        verify(what)
    return tags + ["systematics"] if tree else []
