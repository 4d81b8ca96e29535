from core import *

PARAMS = {"bin": (("numbins", "n"), ("low", "lo"), ("high", "hi"), ("underflow", "u"), ("overflow", "o"), ("nanflow", "N"), ("closedlow", "cl")),
          "split": (("edges", "edges"), ("underflow", "u"), ("overflow", "o"), ("nanflow", "N"), ("closedlow", "cl")),
          "groupbin": (("binwidth", "w"), ("origin", "org"), ("nanflow", "N"), ("closedlow", "cl")),
          "intbin": (("min", "min"), ("max", "max"), ("underflow", "u"), ("overflow", "o")), "groupby": (), "cut": (), "profile": ()}
SPELL = {"u + v": ("v + u", "(u) + v", "u + 2*v - v"), "u*v": ("v*u", "(v)*u", "u*v*1"), "2*u": ("u*2", "u + u", "3*u - u"), "v - 1": ("-1 + v", "v - 2 + 1", "-(1 - v)"), "i + 1": ("1 + i", "i - (-1)", "2*i - i + 1"),
         "u > 0": ("0 < u", "not u <= 0", "u > 0.0"), "u < v": ("v > u", "not u >= v", "u < v"), "i == 1": ("1 == i", "not i != 1", "i == 1")}


def value(a, key):
    if key == "edges":
        return tuple(sorted(a["edges"]))
    return bool(a[key]) if key in ("u", "o", "N", "cl") else a[key]


def spelled(a, how, defs):
    e = a["e"]
    if how == 3 and defs.get("r") == e:
        return "r"
    options = SPELL.get(e, (e, "(%s)" % e, "((%s))" % e))
    return e if how == 0 else options[how - 1]


def check(case):
    spec = case["spec"]
    defs = spec.get("defs") or {}
    h = mkhist(spec)
    g, f, p = split_axes(spec)
    order = g + f + p
    if datalen(case["data"]):
        pour(h, case["data"])
    axes = h.axis
    require(len(axes) == len(order), "{0} has {1} axes", h, len(axes))
    for i, a in enumerate(order):
        require(repr(axes[i]) == repr(mkaxis(a)) and axes[i] == mkaxis(a), "axis {0} of {1} is {2} instead of {3}", i, h, axes[i], mkaxis(a))
        require(axes[i - len(order)] is axes[i] and axes[numpy.int64(i)] is axes[i] and list(axes)[i] is axes[i], "axis {0} of {1} depends on how it is counted", i, h)
    for i in (len(order), len(order) + 3, -len(order) - 1):
        require(rejects(lambda: axes[i], IndexError), "axis[{0}] of {1} exists", i, h, repr(h))
    require(h.shape[:-1] == tuple(len(fixed_labels(a)) for a in f), "{0} has shape {1}", h, h.shape)

    tags = set()
    for q in case["queries"]:
        a = order[q["i"] % len(order)]
        text = spelled(a, q["spell"], defs)
        # by expression: the first that has it
        first = [i for i, x in enumerate(order) if x["e"] == a["e"]][0]
        require(axes[text] is axes[first], "axis[{0!r}] of {1} is {2} instead of {3}", text, h, axes[text], axes[first])
        if q["spell"]:
            tags.add("respelled")
        # by type and parameters: the first that has all of them
        kind = a["t"] if q["wrong"] else q["kind"]
        params = [x for j, x in enumerate(PARAMS[kind]) if (q["mask"] >> j) & 1]
        if kind == a["t"]:
            kw = dict((name, value(a, key)) for name, key in params)
        else:
            kw = {}
        if q["wrong"] == 1 and kw:
            name = sorted(kw)[q["mask"] % len(kw)]
            kw[name] = (not kw[name]) if isinstance(kw[name], bool) else (99.5,) if name == "edges" else kw[name] + 1
        elif q["wrong"] == 2:
            kw["nosuch"] = 1
        fits = [i for i, x in enumerate(order) if x["t"] == kind and x["e"] == a["e"] and all(any(n == name and value(x, key) == v for n, key in PARAMS[kind]) for name, v in kw.items())]
        finder = getattr(axes, kind)
        what = "axis.%s(%r, %s) of %r" % (kind, text, kw, h)
        if fits:
            got = finder(text, **kw)
            require(got is axes[fits[0]], "{0} is {1} instead of {2}", what, got, axes[fits[0]])
            tags.add("found")
            if len([x for x in order if x["e"] == a["e"]]) > 1:
                tags.add("several of one expression")
        else:
            require(rejects(lambda: finder(text, **kw), IndexError), "{0} is {1}", what, lambda: finder(text, **kw))
            tags.add("not found")
    for text in ("zz", "u + 17", "zz > 1"):
        require(rejects(lambda: axes[text], IndexError), "axis[{0!r}] of {1} exists", text, h)
        require(rejects(lambda: axes.bin(text), IndexError), "axis.bin({0!r}) of {1} exists", text, h)

    # attachments are a dict
    want = dict(case["att"] or {})
    given = dict(want)
    members = {"a": h, "n/b": h.copy()}
    if case["book"]:
        if len(case["history"]) % 2:
            x = Book.fromdicts(members, given)
            require(type(x) is Book and sorted(x.allkeys()) == ["a", "n", "n/b"] and x["a"] is h, "Book.fromdicts of {0} is {1}", members, x)
        else:
            x = Book()
            for k, v in want.items():
                x.attach(k, v)
    else:
        x = mkhist(dict(spec, att=case["att"]))
    done = []
    for op, k, v in case["history"]:
        done.append("%s(%r, %r)" % (op, k, v))
        what = "after " + ", ".join(done)
        if op == "attach":
            require(x.attach(k, v) is x, "attach does not return the object")
            want[k] = v
        elif op == "direct":
            x.attachment[k] = v
            want[k] = v
        elif op == "detach":
            if k in want:
                require(x.detach(k) is x, "detach does not return the object")
                del want[k]
            else:
                require(rejects(lambda: x.detach(k), KeyError), "detach({0!r}) of what is not attached is accepted", k)
        elif op == "get":
            if k in want:
                require(x.get(k) == want[k], "get({0!r}) is {1} instead of {2}", k, x.get(k), want[k])
            else:
                require(rejects(lambda: x.get(k), KeyError), "get({0!r}) of what is not attached is {1}", k, lambda: x.get(k))
        elif op == "getdef":
            require(x.get(k, v) == want.get(k, v), "get({0!r}, {1!r}) is {2} instead of {3}", k, v, x.get(k, v), want.get(k, v))
            require(rejects(lambda: x.get(k, v, v), TypeError), "get takes two defaults")
        require(x.has(k) is (k in want), "has({0!r}) is {1} {2}", k, x.has(k), what)
        require(x.attachment == want, "attachments are {0} instead of {1} {2}", x.attachment, want, what)
        tags.add("attachments")
    require(given == dict(case["att"] or {}), "changing the attachments of a book modified the dict it was made from")
    require(sorted(members) == ["a", "n/b"], "the dict a book was made from has become {0}", members)
    return sorted(tags)
