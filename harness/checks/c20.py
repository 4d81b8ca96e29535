from core import *
import pickle

SPACE = dict((n, getattr(hax, n)) for n in ("bin", "intbin", "split", "cut", "groupby", "groupbin", "profile", "Interval", "IntervalNaN"))
SPACE.update({"inf": INF, "nan": NAN})
PARAM = {"e": "expr", "n": "numbins", "lo": "low", "hi": "high", "u": "underflow", "o": "overflow", "N": "nanflow", "cl": "closedlow", "edges": "edges", "min": "min", "max": "max", "w": "binwidth", "org": "origin"}


def compatible(a, b):
    return a.compatible(b) if hasattr(a, "compatible") else type(a) is type(b)       # profiles have no binning to compare


def valid(a):
    if a["t"] == "bin":
        return (a["lo"] < a["hi"] if a["n"] > 0 else a["lo"] <= a["hi"]) and (a["n"] or a["u"] or a["o"] or a["N"])
    if a["t"] == "split":
        return len(set(a["edges"])) == len(a["edges"]) and (len(a["edges"]) > 1 or a["u"] or a["o"] or a["N"])
    if a["t"] == "intbin":
        return a["min"] <= a["max"]
    return True


def np_axis(s):
    """The same axis made with Numpy scalars and arrays."""
    s = dict(s)
    B = numpy.bool_
    if s["t"] == "bin":
        return hax.bin(s["e"], numpy.int32(s["n"]), numpy.float64(s["lo"]), numpy.float64(s["hi"]), underflow=B(s["u"]), overflow=B(s["o"]), nanflow=B(s["N"]), closedlow=B(s["cl"]))
    if s["t"] == "intbin":
        return hax.intbin(s["e"], numpy.int64(s["min"]), numpy.int16(s["max"]), B(s["u"]), B(s["o"]))
    if s["t"] == "split":
        return hax.split(s["e"], numpy.array(s["edges"][::-1]), B(s["u"]), B(s["o"]), B(s["N"]), B(s["cl"]))
    if s["t"] == "groupbin":
        return hax.groupbin(s["e"], numpy.float64(s["w"]), numpy.float64(s["org"]), B(s["N"]), B(s["cl"]))
    return mkaxis(s)


def member(label, x):
    if isinstance(label, IntervalNaN):
        return x != x
    if isinstance(label, Interval):
        return (label.low < x or (label.closedlow and x == label.low)) and (x < label.high or (label.closedhigh and x == label.high))
    return x == label


def labels(a, s, case, tags):
    """The labels of a fixed axis."""
    keys = a.keys()
    want = fixed_labels(s)
    require(len(keys) == len(want), "{0} has labels {1} instead of {2}", a, keys, want)
    for k, w in zip(keys, want):
        got = canon(k)
        if s.get("inexact") and got != "nan":
            ok = got[0] == w[0] and got[3:] == w[3:] and all(x == y or abs(x - y) <= 1e-9 * max(1.0, abs(x)) for x, y in zip(got[1:3], w[1:3]))
        else:
            ok = got == w
        require(ok, "{0} has labels {1} instead of {2}", a, keys, want)
    if s["t"] == "cut":
        return
    require(a.totbins == len(keys), "{0} has totbins {1} but {2} labels", a, a.totbins, len(keys))
    finite = [k for k in keys if not isinstance(k, IntervalNaN) and (not isinstance(k, Interval) or (k.low > -INF and k.high < INF))]
    require(list(keys[a.finiteslice]) == finite and a.numbins == len(finite), "finiteslice of {0} selects {1} of {2}", a, list(keys[a.finiteslice]), list(keys))
    if s["t"] != "intbin":
        require(near(a.low, s["lo"] if s["t"] == "bin" else min(s["edges"]), 1e-12) and near(a.high, s["hi"] if s["t"] == "bin" else max(s["edges"]), 1e-12), "{0} has low {1} and high {2}", a, a.low, a.high)
        for k, l in zip(finite[:-1], finite[1:]):
            require(k.high == l.low and k.closedhigh != l.closedlow, "{0} and {1} of {2} are not adjacent", k, l, a)
        for i, k in enumerate(finite):
            require(k.low < k.high, "{0} of {1} is empty", k, a)
            if s["t"] == "split":
                require(near(a.binwidth(i), k.high - k.low, 1e-12), "{0} has binwidth({1}) = {2}", a, i, a.binwidth(i))
                require(near(a.binwidth(i - a.numbins), k.high - k.low, 1e-12), "{0} has binwidth({1}) = {2}", a, i - a.numbins, a.binwidth(i - a.numbins))
        if s["t"] == "bin" and finite:
            require(near(a.binwidth, (s["hi"] - s["lo"]) / s["n"], 1e-12), "{0} has binwidth {1}", a, a.binwidth)
        if s["t"] == "bin" and s["n"]:
            # the irregular axis with the same edges
            other = a.split()
            require(list(other.keys()) == list(keys), "{0}.split() has labels {1} instead of {2}", a, other.keys(), keys)
            require(list(other.edges) == [k.low for k in finite] + [finite[-1].high], "{0}.split() has edges {1} instead of those of {2}", a, other.edges, keys)
            require(other.expr == a.expr and other.closedlow == a.closedlow and other.underflow == a.underflow and other.overflow == a.overflow and other.nanflow == a.nanflow, "{0}.split() is {1}", a, other)
        probes = list(case["probes"])
        if finite:
            require(finite[0].low == s0(s) and finite[-1].high == s1(s), "{0} has finite labels {1}", a, finite)
            for k in finite:
                probes += [k.low, k.high, (k.low + k.high) / 2.0, float(numpy.nextafter(k.low, INF)), float(numpy.nextafter(k.high, INF)), float(numpy.nextafter(k.low, -INF))]
        for x in probes:
            inside = [k for k in keys if member(k, x)]
            require(len(inside) <= 1, "{0} belongs to {1} of {2}", x, inside, a)
            on = s["N"] if x != x else (s["u"] if x <= s0(s) and not (x == s0(s) and s["cl"]) else (s["o"] if x >= s1(s) and not (x == s1(s) and not s["cl"]) else True))
            require(len(inside) == (1 if on else 0), "{0} belongs to {1} labels of {2}: {3}", x, len(inside), a, list(keys))
    else:
        for x in range(s["min"] - 3, s["max"] + 4):
            inside = [k for k in keys if member(k, x)]
            on = s["u"] if x < s["min"] else (s["o"] if x > s["max"] else True)
            require(len(inside) == (1 if on else 0), "{0} belongs to {1} of {2}", x, inside, a)
        b = a.bin()
        x = [k for k in b.keys() if k.low > -INF and k.high < INF]
        require([(k.low, k.high) for k in x] == [(i - 0.5, i + 0.5) for i in range(s["min"], s["max"] + 1)] and b.underflow == s["u"] and b.overflow == s["o"] and not b.nanflow and b.expr == a.expr, "{0}.bin() is {1}", a, b)
    # intervals as values
    for k in keys:
        if isinstance(k, Interval):
            again = eval(repr(k), dict(SPACE))
            require(again == k and not again != k and hash(again) == hash(k), "label {0} is not {1}", k, again)
            if not isinstance(k, IntervalNaN):
                for other in (Interval(k.low - 1.0 if k.low > -INF else -1e300, k.high, k.closedlow, k.closedhigh), Interval(k.low, k.high + 1.0 if k.high < INF else 1e300, k.closedlow, k.closedhigh),
                              Interval(k.low, k.high, not k.closedlow, k.closedhigh), Interval(k.low, k.high, k.closedlow, not k.closedhigh), IntervalNaN(), (k.low, k.high)):
                    require(k != other and not k == other and other != k, "interval {0!r} is equal to {1!r}", k, other)
    for i, k in enumerate(keys):
        for j, l in enumerate(keys):
            require((k == l) == (i == j) and (k != l) == (i != j), "labels {0} and {1} of {2} compare equal or not", k, l, a)
            require((k < l) == (i < j), "labels {0} and {1} of {2} are in the wrong order", k, l, a)
    mixed = [keys[(5 * i + 3) % len(keys)] for i in range(len(keys))] if len(keys) % 5 else list(keys)[::-1]
    require([canon(k) for k in sorted(mixed)] == [canon(k) for k in keys], "sorting the labels of {0} gives {1}", a, sorted(mixed))
    content = numpy.arange(len(keys))
    require([(canon(k), int(v)) for k, v in a.items(content)] == [(canon(k), i) for i, k in enumerate(keys)], "items of {0} are {1}", a, a.items(content))
    tags.append("labels")


def s0(s):
    return s["lo"] if s["t"] == "bin" else min(s["edges"])


def s1(s):
    return s["hi"] if s["t"] == "bin" else max(s["edges"])


def params(a, s):
    for k, n in PARAM.items():
        if k in s:
            got = getattr(a, n)
            want = tuple(sorted(s[k])) if k == "edges" else s[k]
            require(got == want and (k not in ("u", "o", "N", "cl") or isinstance(got, bool)), "{0}.{1} is {2}", a, n, got)


def equal(a, b, what):
    require(a == b and b == a and not (a != b) and not (b != a), "{0} {1} is not equal to {2}", what, b, a)
    require(hash(a) == hash(b), "{0} {1} has another hash than {2}", what, b, a)
    require(compatible(a, b) and compatible(b, a), "{0} {1} is not compatible with {2}", what, b, a)
    require(type(a) is type(b) and repr(a) == repr(b) and a.tojson() == b.tojson(), "{0} {1} is not the same as {2}", what, repr(b), repr(a))
    require(len(set([a, b])) == 1, "{0} {1} and {2} are different in a set", what, b, a)


def refuse(s, bad, flag):
    flags = {"bin": ("underflow", "overflow", "nanflow", "closedlow"), "split": ("underflow", "overflow", "nanflow", "closedlow"), "intbin": ("underflow", "overflow"), "groupbin": ("nanflow", "closedlow")}.get(s["t"])
    args = {"bin": dict(expr="x", numbins=3, low=0.0, high=1.0), "intbin": dict(expr="x", min=0, max=3), "split": dict(expr="x", edges=[0.0, 1.0]), "groupbin": dict(expr="x", binwidth=1.0, origin=0.5), "cut": dict(expr="x > 0"), "groupby": dict(expr="x"), "profile": dict(expr="x")}[s["t"]]
    cls = getattr(hax, s["t"])
    cls(**args)
    if bad.startswith("flag="):
        args[flags[flag % len(flags)]] = eval(bad[5:])
    elif bad == "missing":
        del args["binwidth" if s["t"] == "groupbin" else sorted(args)[0]]
    elif bad == "unknown":
        args["something"] = True
    elif bad == "nobins":
        args.update(underflow=False, overflow=False, nanflow=False)
        args.update(dict(numbins=0, high=0.0) if s["t"] == "bin" else dict(edges=[0.5]))
    elif bad == "low=high":
        args["high"] = args["low"]
    elif bad == "low>high":
        args["high"] = -1.0
        if flag % 2:
            args["numbins"] = 0
    elif bad == "min>max":
        args["max"] = -1
    elif bad == "edges=dup":
        args["edges"] = [1.0, 0.0, 1.0]
    elif bad == "edges=str":
        args["edges"] = "12"
    elif bad == "w<0":
        args["binwidth"] = -1.0
    else:
        k, v = bad.split("=", 1)
        args[{"w": "binwidth", "org": "origin"}.get(k, k)] = eval(v)
    require(rejects(lambda: cls(**args), (TypeError, ValueError)), "{0}({1}) is accepted", s["t"], args)


def check(case):
    s = case["a"]
    tags = [s["t"]]
    a = mkaxis(s)
    params(a, s)
    for other, what in ((mkaxis(s), "an axis with the same parameters"), (a.copy(), "copy"), (eval(repr(a), dict(SPACE)), "re-evaluated repr"), (hax.Axis.fromjson(json.loads(json.dumps(a.tojson()))), "JSON round trip"), (type(a).fromjson(json.loads(json.dumps(a.tojson()))), "JSON round trip of the class"), (pickle.loads(pickle.dumps(a)), "unpickled axis"), (np_axis(s), "axis made with Numpy numbers")):
        equal(a, other, what)
        params(other, s)
        if isinstance(other, FixedAxis):
            require([canon(k) for k in other.keys()] == [canon(k) for k in a.keys()], "{0} has other labels", what)
    require(a.copy() is not a, "copy() is the same object")
    r = a.relabel(case["label"])
    params(r, dict(s, e=case["label"]))
    require(compatible(r, a) and compatible(a, r) and type(r) is type(a), "{0}.relabel({1}) is {2}", a, case["label"], r)
    params(a, s)
    equal(r.relabel(s["e"]), a, "relabelled twice")
    require((r == a) == (case["label"] == s["e"]), "{0} == {1} is {2}", r, a, r == a)
    if isinstance(a, FixedAxis):
        labels(a, s, case, tags)
    # one parameter changed
    m = case["m"]
    if valid(m):
        b = mkaxis(m)
        require(a != b and b != a and not (a == b) and not (b == a), "{0} is equal to {1}", a, b)
        require(compatible(a, b) == (case["k"] == "e") and compatible(b, a) == (case["k"] == "e"), "{0} and {1} are{2} compatible", a, b, "" if compatible(a, b) else " not")
        require(repr(a) != repr(b) and a.tojson() != b.tojson(), "{0} and {1} look the same", a, b)
        tags.append("changed-" + case["k"])
    else:
        require(rejects(lambda: mkaxis(m), (TypeError, ValueError)), "{0} is accepted", m)
        tags.append("invalid")
    # two or more flags changed
    flags = [k for k in ("u", "o", "N", "cl") if k in s]
    for i in range(1, 1 << len(flags)):
        t = dict(s, **dict((k, not s[k]) for j, k in enumerate(flags) if (i >> j) & 1))
        if valid(t):
            b = mkaxis(t)
            require(a != b and b != a and not (a == b) and not compatible(a, b) and not compatible(b, a), "{0} is equal to or compatible with {1}", a, b)
    refuse(s, case["bad"], case["flag"])
    # another kind of axis or something else
    for t in ({"t": "groupby", "e": s["e"]}, {"t": "cut", "e": s["e"]}, {"t": "profile", "e": s["e"]}, {"t": "groupbin", "e": s["e"], "w": 1.0, "org": 0.0, "N": True, "cl": True}, {"t": "intbin", "e": s["e"], "min": 0, "max": 1, "u": True, "o": True}):
        if t["t"] != s["t"]:
            b = mkaxis(t)
            require(a != b and b != a and not compatible(a, b) and not compatible(b, a), "{0} is equal to or compatible with {1}", a, b)
    require(a != s["e"] and a != None and not (a == 3), "{0} is equal to something that is not an axis", a)
    # finding axes in a histogram
    specs = list(case["others"])
    if not any(x["e"] == "x" for x in specs):
        specs.insert(case["pos"] % (len(specs) + 1), dict(s, e="x > 3" if s["t"] == "cut" else "x"))
    if not any(x["e"] == "w" for x in specs):
        specs.append({"t": "profile", "e": "w"})
    if not any(x["e"].strip() == "w" for x in specs[:-1]):
        h = Hist(*[mkaxis(x) for x in specs])
        g, f, p = split_axes({"axes": specs})
        order = g + f + p
        require(len(h.axis) == len(order) and all(x == mkaxis(y) for x, y in zip(h.axis, order)), "{0} has axes {1}", h, h.axis)
        for i, x in enumerate(order):
            found = [h.axis[i], h.axis[i - len(order)], h.axis[x["e"]], h.axis[RESPELL.get(x["e"], "(%s)" % x["e"])], getattr(h.axis, x["t"])(x["e"])]
            kw = dict((PARAM[k], x[k]) for k in x if k in ("n", "lo", "hi", "u", "o", "N", "cl", "min", "max", "w", "org"))
            found.append(getattr(h.axis, x["t"])(x["e"], **kw))
            for y in found:
                require(y is h.axis[i], "finding {0} in {1} gives {2}", x, h.axis, y)
            for k in kw:
                require(rejects(lambda: getattr(h.axis, x["t"])(x["e"], **dict(kw, **{k: (not kw[k]) if isinstance(kw[k], bool) else kw[k] + 1})), IndexError), "{0} with another {1} is found in {2}", x, k, h.axis)
            other = "cut" if x["t"] != "cut" else "bin"
            require(rejects(lambda: getattr(h.axis, other)(x["e"]), IndexError), "{0} is found as a {1}", x, other)
        require(rejects(lambda: h.axis["nothing_here"], IndexError) and rejects(lambda: h.axis[len(order)], IndexError), "an axis is found that is not in {0}", h.axis)
    return tags
