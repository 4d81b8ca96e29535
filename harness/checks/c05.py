import pickle

from core import *
from histbook.book import SamplesBook


def leaves(obj):
    if isinstance(obj, Hist):
        return [obj]
    return obj.allvalues(onlyhist=True)


def look(obj):
    """Everything observable about an object."""
    if isinstance(obj, Hist):
        return full(obj)
    return [(n, full(x)) for n, x in obj.allitems(onlyhist=True)] + [json.dumps(obj.attachment, sort_keys=True, default=str), obj.allkeys()]


def same_snap(got, want, what):
    if isinstance(want, tuple):
        same(got[0], want[0], what)
        require(got[1:] == want[1:], "{0}: metadata are {1} instead of {2}", what, got[1:], want[1:])
    else:
        require(got[-2:] == want[-2:], "{0}: {1} instead of {2}", what, got[-2:], want[-2:])
        require(len(got) == len(want), "{0}: number of histograms changed", what)
        for g, w in zip(got[:-2], want[:-2]):
            require(g[0] == w[0], "{0}: names changed", what)
            same_snap(g[1], w[1], what + " member " + g[0])


def twin(obj):
    """An object that shares nothing with obj: built from its JSON text."""
    return jsonround(obj)


def addable(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, Hist):
        return tuple(x.axis) == tuple(y.axis) and x.shape == y.shape
    return all(addable(x[n], y[n]) for n in x.keys() if n in y.keys())


def derive(op, objs):
    """A new object, or None if the operation does not apply. Also returns the sources."""
    name, i, j, k = op
    x = objs[i % len(objs)]
    y = objs[j % len(objs)]
    if isinstance(x, Hist):
        if name == "copy":
            return x.copy()
        if name == "copyonfill":
            return x.copyonfill()
        if name == "cleared":
            return x.cleared()
        if name == "weight":
            return x.weight(["w", "2*w", 3.0, "v"][k % 4])
        if name == "filter":
            return x.filter(["u > 0", "not q", "p or q"][k % 3])
        if name == "systematic":
            return None if x.has("systematic") else x.systematic([k, 1])
        if name == "add":
            if not isinstance(y, Hist) or tuple(x.axis) != tuple(y.axis) or x.shape != y.shape:
                return None
            return x + y
        if name == "mul":
            return x * [2, 0.5, 1][k % 3]
        if name == "rmul":
            return [2, 0.5, 1][k % 3] * x
        if name == "project":
            b = binned(x)
            return x.project(*[a for m, a in enumerate(b) if (k >> m) & 1 or (k == 0)]) if len(b) else None
        if name == "drop":
            p = profs(x)
            return x.drop(p[k % len(p)]) if p else None
        if name in ("select", "selectcut", "selectgroup"):
            for a in binned(x):
                if name == "select" and isinstance(a, (hax.bin, hax.split)) and a.expr == "u" and a.numbins >= 2:
                    return x.select(["u < 0", "u >= 0"][k % 2]) if 0.0 in [l.low for l in a.keys() if isinstance(l, Interval)] and 0.0 in [l.high for l in a.keys() if isinstance(l, Interval)] else None
                if name == "select" and isinstance(a, hax.intbin) and a.min < 0 < a.max:
                    return x.select(["j < 1", "j >= 0", "j > -1"][k % 3])
                if name == "selectcut" and isinstance(a, hax.cut):
                    return x.select(["p", "not p"][k % 2])
                if name == "selectgroup" and isinstance(a, hax.groupby) and a.expr in ("c", "i"):
                    return x.select(["c == 'a'", "c != 'b'", "c in {'a', 'b'}"][k % 3] if a.expr == "c" else ["i == 1", "i != 2", "i < 3"][k % 3])
            return None
        if name == "rebin":
            for a in binned(x):
                if isinstance(a, hax.split) and a.expr == "u" and len(a.edges) >= 3:
                    return x.rebin(a, a.edges[::2])
                if isinstance(a, hax.bin) and a.expr == "u" and a.numbins == 4:
                    return x.rebin("u", [-2.0, 0.0, 2.0])
            return None
        if name == "rebinby":
            for a in binned(x):
                if isinstance(a, (hax.split, hax.bin, hax.intbin, hax.groupbin)) and (isinstance(a, hax.groupbin) or a.numbins >= 1):
                    return x.rebinby(a, 1 + k % 3)
            return None
        if name == "group":
            if "source" in [str(a.expr) for a in x.axis]:
                return None
            if isinstance(y, Hist) and tuple(x.axis) == tuple(y.axis) and x.shape == y.shape:
                return Hist.group(one=x, two=y)
            return Hist.group(one=x)
        if name == "json":
            return jsonround(x)
        if name == "pickle":
            return pickle.loads(pickle.dumps(x, k % 3 + 2 if k % 3 + 2 <= 4 else 2))
        if name == "axesof":
            return Hist(*x.axis, weight="w")
        if name == "samples":
            return SamplesBook(["s", "t"], h=x)
        return None
    else:
        if name == "bookcopy":
            return x.copy()
        if name == "bookcopyonfill":
            return x.copyonfill()
        if name == "cleared":
            return x.cleared()
        if name == "mul":
            return x * 2
        if name == "bookjson":
            return jsonround(x)
        if name == "pickle":
            return pickle.loads(pickle.dumps(x, 2))
        if name == "bookadd":
            if addable(x, y):
                return x + y
            return None
        if name == "bookgroup":
            if type(x) is Book and len(x) and not any("source" in [str(a.expr) for a in h.axis] for h in leaves(x)):
                return Book.group(one=x)
        return None


def mutate(op, x, y, fills):
    """Apply a change to x (y: another object, only read). False if it does not apply."""
    name, i, j, k = op
    if isinstance(x, Hist):
        if name == "fill":
            arrays = mkdata(fills[k % len(fills)])
            arrays["source"] = numpy.array(["one", "two", "three"])[numpy.arange(datalen(fills[k % len(fills)])) % 3]
            x.fill(arrays)
        elif name == "imul":
            x *= [2, 0.5, 3][k % 3]
        elif name == "iadd":
            if not isinstance(y, Hist) or tuple(x.axis) != tuple(y.axis) or x.shape != y.shape:
                return False
            x += y
        elif name == "clear":
            x.clear()
        elif name == "attach":
            x.attach("k%d" % (k % 2), k)
        elif name == "detach":
            if not x.has("note"):
                return False
            x.detach("note")
        elif name == "setatt":
            x.attachment["direct"] = k
        elif name == "defs":
            x.defs["unused%d" % k] = "u"
        elif name == "togroup":
            if len(binned(x)) == 0 or binned(x)[0].expr != "source" or not isinstance(y, Hist) or tuple(x.axis)[1:] != tuple(y.axis) or x.shape != y.shape:
                return False
            x.togroup(**{["one", "three"][k % 2]: y})
        elif name == "look":
            x.table()
            x.fields
            repr(x), str(x), [hash(a) for a in x.axis]
            x.tojson()
        else:
            return False
    else:
        if name in ("fill", "bookfill"):
            arrays = mkdata(fills[k % len(fills)])
            arrays["source"] = numpy.array(["one", "two", "three"])[numpy.arange(datalen(fills[k % len(fills)])) % 3]
            if hasattr(x, "fill"):
                x.fill(arrays)
            else:
                x.view(["s/*", "*/h"][k % 2]).fill(arrays)
        elif name in ("imul", "bookimul"):
            x *= 2
        elif name == "clear":
            x.clear()
        elif name in ("attach", "setatt"):
            x.attach("b%d" % k, k)
        elif name == "bookiadd":
            if addable(x, y):
                x += y
            else:
                return False
        elif name == "look":
            str(x), repr(x)
        else:
            return False
    return True


def check(case):
    fills = case["fills"]
    # looking at a histogram's contents may itself give it contents: in some of the cases everything is
    # seen through a twin made from the JSON text, so that unfilled histograms stay unfilled
    snap = (lambda o: look(twin(o))) if case.get("unseen") else look
    objs = []
    for s, pre in zip(case["specs"], case["prefill"]):
        h = mkhist(s)
        if pre:
            h.fill(mkdata(fills[0]))
        objs.append(h)
    # linked[a] are the objects whose histograms a holds (books hold the very histograms given to them)
    holds = {}
    snaps = [snap(o) for o in objs]
    tags = []
    for n, op in enumerate(case["ops"]):
        name = op[0]
        what = "step %d (%s)" % (n, name)
        if name == "book":
            a, b = objs[op[1] % len(objs)], objs[op[2] % len(objs)]
            book = Book()
            # the book holds the histograms themselves; here, copies, so that it stands alone
            book["a"] = a.copy()
            if b is not a:
                book["n/b"] = b.copyonfill()
            for o, s in zip(objs, snaps):
                same_snap(snap(o), s, what + ": an object after putting copies into a book")
            objs.append(book)
            snaps.append(snap(book))
            tags.append("book")
            continue
        if name in set(["fill", "imul", "iadd", "clear", "attach", "detach", "setatt", "bookfill", "togroup", "bookimul", "bookiadd", "defs", "look"]):
            i = op[1] % len(objs)
            x = objs[i]
            y = objs[op[2] % len(objs)]
            if y is x:
                y = twin(y) if not isinstance(y, Hist) else y
            t = twin(x)
            ty = twin(y)
            if not mutate(op, t, ty, fills):
                continue
            mutate(op, x, y if y is not x else ty, fills)
            for m, (o, s) in enumerate(zip(objs, snaps)):
                if o is not x:
                    same_snap(snap(o), s, what + " of object %d changed object %d" % (i, m))
            got = snap(x)
            same_snap(got, snap(t), what + ": object %d differs from an isolated twin" % i)
            snaps[i] = got
            tags.append("m-" + name)
        else:
            new = derive(op, objs)
            if new is None:
                continue
            for m, (o, s) in enumerate(zip(objs, snaps)):
                same_snap(snap(o), s, what + " changed object %d" % m)
            require(all(new is not o for o in objs), "{0} gives the object itself", what)
            objs.append(new)
            snaps.append(snap(new))
            tags.append("d-" + name)
    return tags if any(t.startswith("d-") for t in tags) and any(t in ("m-fill", "m-imul", "m-iadd", "m-clear", "m-attach", "m-setatt", "m-bookfill", "m-togroup", "m-defs") for t in tags) else []
