from core import *


def DataFrameClass():
    class DataFrame(object):
        """Looks like pandas to histbook: class name, module, .columns and [name].values."""
        def __init__(self, arrays):
            self._arrays = arrays
            self.columns = list(arrays)

        def __getitem__(self, n):
            class Series(object):
                values = self._arrays[n]
            return Series()
    DataFrame.__module__ = "pandas.core.frame"
    return DataFrame


DataFrame = DataFrameClass()


class Lazy(object):
    """A mapping that only has __getitem__ and keys."""
    def __init__(self, arrays):
        self.arrays = arrays

    def __getitem__(self, n):
        return self.arrays[n]

    def keys(self):
        return self.arrays.keys()


def constant(c):
    """A named constant stands for its number unless a field of that name is given."""
    def make(name):
        e = c["expr"].format(name)
        return {"profile": lambda: Hist(hax.bin("u", 4, -2, 2), hax.profile(e)), "weight": lambda: Hist(hax.bin("u", 4, -2, 2), weight=e), "bin": lambda: Hist(hax.bin(e, 40, -10, 10), hax.bin("u", 2, -1, 1)),
                "def": lambda: Hist(hax.bin("r", 40, -10, 10), hax.profile("r + u"), defs={"r": e}), "filter": lambda: Hist(hax.bin("u", 4, -2, 2), filter="u < %s" % e)}[c["as"]]()
    h, want = make(c["name"]), make("stand_in")
    u = numpy.array(c["u"], dtype=float)
    arrays = {"u": u}
    if c["given"] is not None:
        arrays[c["name"]] = numpy.array(c["given"], dtype=float) if isinstance(c["given"], list) and c["how"] == "dataframe" else c["given"]
        if c["how"] == "dataframe" and not isinstance(c["given"], list):
            arrays[c["name"]] = numpy.full(len(u), c["given"])
    value = {"p": math.pi, "e": math.e}[c["name"][0].lower()]
    want.fill(u=u, stand_in=value if c["given"] is None else c["given"])
    if "u" not in h.fields:
        return []
    if c["how"] == "dict":
        h.fill(arrays)
    elif c["how"] == "kwargs":
        h.fill(**arrays)
    elif c["how"] == "mixed":
        h.fill(dict((n, x) for n, x in arrays.items() if n != "u"), u=u)
    elif c["how"] == "book":
        Book(a=h).fill(arrays)
    else:
        h.fill(DataFrame(arrays))
    one, two = view(h), view(want)
    same(one, two, "%s given as %r in %r" % (c["name"], c["given"], h))
    return ["constant"] if len(u) else []


def check(case):
    spec, data = case["spec"], case["data"]
    n = datalen(data)
    names = list(data["cols"])
    base = mkhist(spec)
    require(sorted(base.fields) == sorted(names), "fields are {0}, but the expressions use {1}", base.fields, sorted(names))
    require(len(set(base.fields)) == len(base.fields), "fields are repeated: {0}", base.fields)
    arrays = mkdata(data)
    base.fill(arrays)
    want = view(base)
    same(want, Model(spec).fill(records(data)).view(), "fill")
    tags = []

    for v in case["variants"]:
        kind = v["kind"]
        h = mkhist(spec)
        if kind == "chunks":
            cuts = [0] + v["cuts"] + [n]
            for lo, hi in zip(cuts[:-1], cuts[1:]):
                h.fill(mkdata(subdata(data, range(lo, hi))))
        elif kind == "permute":
            h.fill(mkdata(subdata(data, v["perm"])))
        elif kind == "kwargs":
            h.fill(**arrays)
        elif kind == "mixed":
            # keywords take precedence over what the dict says
            first = dict((f, arrays[f] if f not in v["kw"] else arrays[f][::-1].copy()) for f in names)
            for i, f in enumerate(v["kw"]):
                if i % 2 == 0:
                    del first[f]
            h.fill(first, **dict((f, arrays[f]) for f in v["kw"]))
        elif kind == "lists":
            if any(f in ("c", "d") for f in names) and n == 0:
                continue
            h.fill(dict((f, list(x)) for f, x in data["cols"].items()))
        elif kind == "dtype":
            h.fill(mkdata(data, dt=v["dt"]))
        elif kind == "strided":
            h.fill(dict((f, numpy.repeat(x, 2)[::2] if i % 2 == 0 else x[::-1].copy()[::-1]) for i, (f, x) in enumerate(arrays.items())))
        elif kind == "readonly":
            ro = mkdata(data)
            for x in ro.values():
                x.flags.writeable = False
            h.fill(ro)
        elif kind == "dataframe":
            h.fill(DataFrame(arrays))
        elif kind == "ctor":
            h = mkhist(spec, fill=arrays)
            if len(names) == 1:
                h2 = mkhist(spec, fill=arrays[names[0]])
                same(view(h2), want, "fill= with the only field's array")
                tags.append("ctor-array")
        elif kind == "extra":
            more = dict(arrays, unused=numpy.arange(v["len"] * 1.0), zzz=numpy.array(["q"] * n, dtype="U1"), another=3)
            h.fill(more)
        elif kind == "scalars":
            if n == 0 or len(v["scalar"]) == len(names):
                continue
            h.fill(dict((f, x if f not in v["scalar"] else (numpy.array(data["cols"][f][0]) if v["zerod"] else data["cols"][f][0])) for f, x in arrays.items()))
            if v["scalar"]:
                tags.append("broadcast")
        elif kind == "bookfill":
            book = Book(h=h)
            require(sorted(book.fields) == sorted(names), "fields of the book are {0}, but the expressions use {1}", book.fields, sorted(names))
            if v["len"] % 3 == 0:
                book.fill(**arrays)
            elif v["len"] % 3 == 1:
                book.fill(DataFrame(dict(arrays, zzz=numpy.zeros(n))))
            else:
                book.fill(arrays)
        elif kind == "mapping":
            h.fill(Lazy(arrays))
        elif kind == "repeat":
            if n == 0:
                continue
            r = v["total"] // n + 1
            h.fill(dict((f, numpy.tile(x, r)) for f, x in arrays.items()))
            same(view(h), Model(spec).fill(records(data)).times(r).view(), "filling with everything %d times" % r)
            tags.append(kind)
            continue
        labels_ok(h, spec, kind)
        same(view(h), want, "filling by " + kind)
        tags.append(kind)

    # a record of plain numbers is one entry
    if n >= 1:
        h = mkhist(spec)
        for i in range(min(n, 3)):
            h.fill(dict((f, x[i]) for f, x in data["cols"].items()))
        same(view(h), Model(spec).fill(records(data)[:3]).view(), "filling record by record with scalars")

    if case.get("const"):
        tags += constant(case["const"])

    # each of the fields must be given
    if names:
        f = names[case["probe"] % len(names)]
        h = mkhist(spec)
        require(rejects(lambda: h.fill(dict((m, x) for m, x in arrays.items() if m != f))), "fill without the field {0} of {1} is accepted", f, names)

    return tags if n >= 2 and len(want) >= 1 else []
