from core import *
from core import _where
import collections
import histbook.vega as hv

FINITE1D = ("bin", "intbin", "split")


def close(x):
    """Numbers are compared to nine digits."""
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return x
    return round(float(x), 7) + 0.0


class Plot(object):
    pass


def build(p):
    """A plot and the points each of its marks should show."""
    out = Plot()
    s = p["spec"]
    h = mkhist(s)
    if p["data"] is not None:
        pour(h, p["data"])
        same(view(h), Model(s).fill(records(p["data"])).view(), "fill")
    before = full(h)
    ax = [h.axis[i] for i in position(s)]             # in the order of the specification
    how = list(p["how"])
    defs = s.get("defs")

    def ref(i):
        return refer(h, ax[i], how.pop(), defs)
    profile = None if p["prof"] is None else ax[p["prof"]]
    opts = dict(p["opts"])
    if profile is not None:
        opts["profile"] = refer(h, profile, how.pop(), defs)
    chain = h
    for ch, i in p["chain"]:
        chain = getattr(chain, ch)(ref(i), **({"order": p["order"]} if ch == "stack" and p.get("order") else {}))
    if p["kind"] == "heatmap":
        nb = len([a for a in s["axes"] if a["t"] != "profile"])
        if p.get("default") and nb == 2 and [ax[i] for i in p["last"]] == binned(h):
            out.plot = chain.heatmap(**opts)
        else:
            out.plot = chain.heatmap(ref(p["last"][0]), ref(p["last"][1]), **opts)
    elif p.get("default") and len([a for a in s["axes"] if a["t"] != "profile"]) == 1:
        out.plot = getattr(chain, p["kind"])(**opts)
    else:
        out.plot = getattr(chain, p["kind"])(ref(p["last"][0]), **opts)
    require(full(h) == before, "plotting modified the histogram")
    out.h, out.p, out.ax, out.before = h, p, ax, before

    # what it should show
    used = [i for _, i in p["chain"]] + p["last"]
    error = p["kind"] != "heatmap" and (p["opts"]["error"] if "error" in p["opts"] else p["kind"] == "marker")
    projected = h.project(*[ax[i] for i in used])
    axes = binned(projected)
    require(len(axes) == len(set(used)), "projection has axes {0}", axes)
    where = [[j for j, x in enumerate(axes) if x == ax[i]][0] for i in used]
    table = projected.table(*([] if profile is None else [profile]), count=(profile is None), error=error, normalized=bool(p["opts"].get("normalized")), recarray=False)
    out.bad = [False]
    points = []
    out.labels = {}
    for i, j in zip(used, where):
        a = axes[j]
        if isinstance(a, FixedAxis):
            out.labels[i] = [labeltext(k) for k in (a.bin() if isinstance(a, hax.intbin) else a).keys()]
        else:
            out.labels[i] = []
    log = p["opts"].get("yscale") in ("log",) or (isinstance(p["opts"].get("yscale"), dict) and p["opts"]["yscale"].get("type") == "log")
    for labels, row in rows(axes, table):
        xs = {}
        skip = False
        for (ch, i), j in zip(p["chain"], where):
            xs[{"overlay": "color", "stack": "color", "beside": "column", "below": "row"}[ch]] = labels[j][1]
        y = row[0]
        err = row[1] if error else None
        if any(v != v or v in (INF, -INF) for v in row):
            out.bad[0] = True
        if p["kind"] == "heatmap":
            for name, i, j in zip("xy", p["last"], where[len(p["chain"]):]):
                lab, text = labels[j]
                if s["axes"][i]["t"] == "groupby":
                    xs[name] = text
                elif isinstance(lab, Interval):
                    if lab.low == lab.low and -INF < lab.low and lab.high < INF:
                        xs[name] = 0.5 * (lab.low + lab.high)
                    else:
                        skip = True
                else:
                    xs[name] = text
            if not skip:
                points.append(dict(xs, color=y))
            continue
        lab, text = labels[where[-1]]
        base = p["kind"] in ("step", "area")
        t = s["axes"][p["last"][0]]["t"]
        new = []
        if t in FINITE1D and p["kind"] != "bar":
            if isinstance(lab, IntervalNaN) or lab.low == -INF or lab.high == INF:
                continue
            center = 0.5 * (lab.low + lab.high)
            if base:
                first, last = ends(axes[where[-1]])
                if lab.low == first:
                    new.append(dict(xs, x=lab.low, y=0.0, ex=lab.low, err=0.0))
                new.append(dict(xs, x=lab.low, y=y, ex=center, err=err))
                if lab.high == last:
                    new.append(dict(xs, x=lab.high, y=0.0, ex=lab.high, err=0.0))
            else:
                new.append(dict(xs, x=center, y=y, ex=center, err=err))
        else:
            new.append(dict(xs, x=text, y=y, ex=text, err=err))
        points += [q for q in new if not log or q["y"] > 0]
    out.points, out.error, out.log = points, error, log
    return out


def ends(a):
    k = [x for x in (a.bin().keys() if isinstance(a, hax.intbin) else a.keys()) if not isinstance(x, IntervalNaN) and x.low > -INF and x.high < INF]
    return k[0].low, k[-1].high


def position(s):
    """Position in h.axis of each axis of the specification."""
    g, f, p = split_axes(s)
    order = g + f + p
    return [[i for i, x in enumerate(order) if x is a][0] for a in s["axes"]]


def labeltext(lab):
    if isinstance(lab, (bool, numpy.bool_)):
        return "pass" if lab else "fail"
    return str(lab)


def rows(axes, content, labels=()):
    if len(axes) and isinstance(axes[0], GroupAxis):
        for lab, sub in axes[0].items(content):
            for y in rows(axes[1:], sub, labels + ((lab, labeltext(lab)),)):
                yield y
    else:
        keys = [list((a.bin() if isinstance(a, hax.intbin) else a).keys()) for a in axes]
        flat = content.reshape((-1, content.shape[-1])).tolist()
        for combo, row in zip(product(keys), flat):
            yield labels + tuple((k, labeltext(k)) for k in combo), row


def leaves(node, inherited=()):
    """Everything that is drawn, with the transforms applying to it."""
    tr = list(inherited) + list(node.get("transform", []))
    if "mark" in node:
        return [(node, tr)]
    out = []
    for k in ("layer", "hconcat", "vconcat"):
        for x in node.get(k, []):
            out += leaves(x, tr)
    return out


class Datum(object):
    def __init__(self, d):
        self.__dict__.update(d)


def js(expr):
    code = re.sub(r"\bif\(", "IF(", expr).replace("===", "==")
    return compile(code, "<vega>", "eval")


def transformed(data, transforms):
    out = [dict(d) for d in data]
    for t in transforms:
        if "filter" in t:
            f = t["filter"]
            require(isinstance(f, dict) and set(f) == set(["field", "equal"]), "unknown kind of filter {0}", f)
            out = [d for d in out if d.get(f["field"]) == f["equal"]]
        elif "calculate" in t:
            code = js(t["calculate"])
            for d in out:
                try:
                    d[t["as"]] = eval(code, {"IF": _where, "datum": Datum(d)})
                except AttributeError:
                    d[t["as"]] = None          # undefined, as for rows of another plot before they are filtered out
        else:
            raise Violation("unknown transform %r" % (t,))
    return out


def same_points(got, want, keys, what):
    def bag(points):
        c = collections.Counter()
        for q in points:
            c[tuple((k, close(q[k])) for k in keys)] += 1
        return c
    g, w = bag(got), bag(want)
    if g != w:
        # allow for rounding at the seventh digit
        left, right = sorted((g - w).elements(), key=repr), sorted((w - g).elements(), key=repr)
        if len(left) == len(right) and all(all(a == b or (isinstance(a[1], float) and isinstance(b[1], float) and near(a[1], b[1], 1e-6)) for a, b in zip(x, y)) for x, y in zip(left, right)):
            return
        raise Violation("%s shows %r instead of %r" % (what, left[:4], right[:4]))


def shown(d, enc, channels):
    q = {}
    for ch in channels:
        f = enc[ch]["field"]
        require(f in d, "the {0} encoding uses {1}, but the row has {2}", ch, f, sorted(d))
        q[ch] = d[f]
    return q


def check_plot(pl, parts, data, tags):
    p = pl.p
    what = "%r" % (pl.plot,)
    require(len(parts) == (2 if pl.error else 1), "{0} is drawn with {1} marks", what, len(parts))
    node, tr = parts[0]
    enc = node["encoding"]
    mark = node["mark"] if isinstance(node["mark"], str) else node["mark"]["type"]
    t = p["spec"]["axes"][p["last"][0]]["t"]
    quant = t in FINITE1D
    wantmark = {"heatmap": "rect", "bar": "bar", "step": "line" if quant else "bar", "area": "area" if quant else "bar", "line": "line", "marker": "point"}[p["kind"]]
    require(mark == wantmark, "{0} is drawn with {1}", what, mark)
    if wantmark in ("line", "area") and p["kind"] != "line":
        require(node["mark"].get("interpolate") == "step-before", "{0} is drawn with {1}", what, node["mark"])
    channels = ["x", "y"] + [{"overlay": "color", "stack": "color", "beside": "column", "below": "row"}[ch] for ch, _ in p["chain"]]
    if p["kind"] == "heatmap":
        channels.append("color")
    require(set(channels) == set(k for k in enc if k not in ("order",)), "{0} has encodings {1} instead of {2}", what, sorted(enc), channels)
    rowsgot = transformed(data, tr)
    same_points([shown(d, enc, channels) for d in rowsgot], pl.points, channels, what)
    if p["kind"] != "heatmap":
        require(enc["y"]["type"] == "quantitative" and enc["x"]["type"] == ("nominal" if not quant else ("ordinal" if p["kind"] == "bar" else "quantitative")), "{0} has scales of types {1} and {2}", what, enc["x"]["type"], enc["y"]["type"])
    else:
        for name, i in zip("xy", p["last"]):
            a, s = pl.ax[i], p["spec"]["axes"][i]
            if s["t"] in ("bin", "intbin"):
                lo, hi = (s["lo"], s["hi"]) if s["t"] == "bin" else (s["min"] - 0.5, s["max"] + 0.5)
                require(enc[name]["type"] == "quantitative" and enc[name]["bin"] and list(enc[name]["bin"]["extent"]) == [lo, hi] and near(enc[name]["bin"]["minstep"], (hi - lo) / (s["n"] if s["t"] == "bin" else s["max"] - s["min"] + 1), 1e-9), "{0} is drawn with {1}", what, enc[name])
            else:
                require(enc[name]["type"] == "nominal" and not enc[name].get("bin"), "{0} is drawn with {1}", what, enc[name])
    for ch, i in p["chain"]:
        if ch in ("overlay", "stack") and not p.get("order") and not isinstance(enc["color"]["scale"].get("domain"), type(None)):
            have = set(d[enc["color"]["field"]] for d in rowsgot)
            domain = enc["color"]["scale"]["domain"]
            require(have <= set(domain) and len(set(domain)) == len(domain), "{0} colors {1} by {2}", what, sorted(have), domain)
            if ch == "overlay" and p["spec"]["axes"][i]["t"] != "groupby":
                order = pl.labels[i]
                require([x for x in domain if x in order] == [x for x in order if x in domain], "{0} colors by {1}, which is not in the order of {2}", what, domain, order)
    # titles
    title = dict((name, pl.ax[i].expr) for name, i in zip("xy", p["last"]))
    if p["prof"] is not None:
        title["y" if p["kind"] != "heatmap" else "color"] = pl.ax[p["prof"]].expr
    for ch, i in p["chain"]:
        title[{"overlay": "color", "stack": "color", "beside": "column", "below": "row"}[ch]] = pl.ax[i].expr
    for ch, text in title.items():
        got = enc[ch].get("axis", enc[ch].get("legend", enc[ch].get("header")))["title"]
        require(got == text, "the {0} encoding of {1} is titled {2!r} instead of {3!r}", ch, what, got, text)
    if any(ch == "stack" for ch, _ in p["chain"]):
        require(enc["y"].get("aggregate") == "sum" and "order" in enc, "{0} is not stacked: {1}", what, enc)
        if p.get("order"):
            ranks = {}
            for d in rowsgot:
                ranks[d[enc["color"]["field"]]] = d[enc["order"]["field"]]
            seq = [ranks[x] for x in p["order"] if x in ranks]
            require(all(x < y for x, y in zip(seq[:-1], seq[1:])), "{0} is stacked in the order {1} instead of {2}", what, ranks, p["order"])
            rest = [ranks[x] for x in ranks if x not in p["order"]]
            require(not rest or not seq or min(rest) > max(seq), "{0} is stacked in the order {1} instead of {2}", what, ranks, p["order"])
            require(enc["color"]["scale"].get("domain") == p["order"][::-1] or "colorscale" in p["opts"], "{0} has colors for {1} instead of {2}", what, enc["color"]["scale"], p["order"])
            if len(seq) > 1:
                tags.add("stack-order")
    for name, ch in (("xscale", "x"), ("yscale", "y"), ("colorscale", "color")):
        if name in p["opts"] and ch in enc:
            v = p["opts"][name]
            require(enc[ch]["scale"] == (v if isinstance(v, dict) else {"type": v}), "{0} has scale {1} instead of {2}", what, enc[ch]["scale"], v)
    if pl.error:
        node, tr = parts[1]
        enc = node["encoding"]
        require(node["mark"] == "rule" or (isinstance(node["mark"], dict) and node["mark"]["type"] == "rule"), "errors of {0} are drawn with {1}", what, node["mark"])
        want = [{"x": q["ex"], "y": q["y"] - q["err"], "y2": q["y"] + q["err"]} for q in pl.points]
        same_points([shown(d, enc, ("x", "y", "y2")) for d in transformed(data, tr)], want, ("x", "y", "y2"), "errors of " + what)
        tags.add("error")
    tags.add(p["kind"])
    for ch, _ in p["chain"]:
        tags.add(ch)
    if pl.log:
        tags.add("log")
    if p["prof"] is not None:
        tags.add("profile")


def make(node, plots):
    if "combo" not in node:
        pl = build(node)
        plots.append(pl)
        return pl.plot
    parts = [make(x, plots) for x in node["parts"]]
    opts = {} if node["config"] is None else {"config": dict(node["config"])}
    cls = getattr(histbook, node["combo"])
    args = [iter(parts)] if node["iter"] else parts
    if node["combo"] == "grid":
        return cls(node["numcol"], *args, **opts)
    return cls(*args, **opts)


def structure(node, spec, it, top, tags):
    """Assign the drawn leaves to the plots, following the arrangement that was asked for."""
    if "combo" not in node:
        pl = next(it)
        if pl.error:
            require("layer" in spec and len(spec["layer"]) == 2, "{0} is drawn as {1}", pl.plot, sorted(spec))
            got = [(pl, spec["layer"])]
        else:
            require("mark" in spec, "{0} is drawn as {1}", pl.plot, sorted(spec))
            got = [(pl, [spec])]
        return got
    kind = node["combo"]
    out = []
    if kind == "overlay":
        layers = list(spec["layer"])
        for x in node["parts"]:
            pl = next(it)
            n = 2 if pl.error else 1
            out.append((pl, layers[:n]))
            layers = layers[n:]
        require(not layers, "overlay has more layers than plots")
    elif kind in ("beside", "below"):
        k = "hconcat" if kind == "beside" else "vconcat"
        require(len(spec[k]) == len(node["parts"]), "{0} of {1} plots has {2}", kind, len(node["parts"]), len(spec[k]))
        for x, y in zip(node["parts"], spec[k]):
            out += structure(x, y, it, False, tags)
    else:
        flat = [x for row in spec["vconcat"] for x in row["hconcat"]]
        require(len(flat) == len(node["parts"]), "grid of {0} plots has {1}", len(node["parts"]), len(flat))
        sizes = [len(row["hconcat"]) for row in spec["vconcat"]]
        require(all(n == node["numcol"] for n in sizes[:-1]) and 1 <= sizes[-1] <= node["numcol"], "grid with {0} columns has rows of {1}", node["numcol"], sizes)
        for x, y in zip(node["parts"], flat):
            out += structure(x, y, it, False, tags)
    tags.add(kind)
    return out


def configs(node, out):
    if "combo" in node:
        for x in node["parts"]:
            configs(x, out)
    elif node["opts"].get("config"):
        out.update(node["opts"]["config"])
    return out


def refusals(pl, tags):
    h, p, ax = pl.h, pl.p, pl.ax
    a = ax[p["last"][0]]
    calls = [
        ("overlay of an overlay", lambda: h.overlay(a).overlay(a)),
        ("stack of a stack", lambda: h.stack(a).stack(a)),
        ("beside twice", lambda: h.beside(a).beside(a)),
        ("below twice", lambda: h.below(a).below(a)),
        ("stacked lines", lambda: h.stack(a).line(a)),
        ("stacked steps", lambda: h.stack(a).step(a)),
        ("stacked markers", lambda: h.stack(a).marker(a)),
        ("overlaid heatmap", lambda: h.overlay(a).heatmap(a, a)),
        ("stacked heatmap", lambda: h.stack(a).heatmap(a, a)),
        ("heatmap with one axis", lambda: h.heatmap(a)),
        ("unknown axis", lambda: h.bar("nothing")),
        ("unknown axis in a chain", lambda: h.overlay("nothing")),
        ("unknown option", lambda: h.bar(a, nothing=1)),
        ("error bars beside", lambda: h.beside(a).bar(a, error=True)),
        ("markers below", lambda: h.below(a).marker(a)),
        ("combining something else", lambda: histbook.overlay(3)),
        ("unknown option of a combination", lambda: histbook.beside(h.bar(a), nothing=1)),
    ]
    if len(binned(h)) != 1:
        calls.append(("no axis", lambda: h.bar()))
    if len(binned(h)) != 2:
        calls.append(("heatmap without axes", lambda: h.heatmap()))
    for what, call in calls:
        require(rejects(call), "{0} is accepted", what)


SPACE = dict((n, getattr(histbook, n)) for n in ("bin", "intbin", "split", "cut", "groupby", "groupbin", "profile", "Hist", "overlay", "beside", "below", "grid"))
SPACE.update({"inf": INF, "nan": NAN})


def unfilled(node):
    return dict(node, data=None) if "combo" not in node else dict(node, parts=[unfilled(x) for x in node["parts"]])


def printed(plot, top):
    """The text of a plot is source code for the same plot of an unfilled histogram."""
    require("".join(repr(plot).split()) in ("".join(str(plot).split()), "".join(str(plot).split())[1:-1]), "repr and str differ: {0} and {1}", repr(plot), str(plot))
    blank = make(unfilled(top), [])
    want = json.dumps(blank.vegalite(), sort_keys=True)
    for text in (repr(plot), str(plot)):
        try:
            e = eval(text, dict(SPACE))
        except Exception as err:
            raise Violation("%s cannot be evaluated: %s" % (text, err))
        require(type(e) is type(plot) and repr(e) == repr(plot), "{0} evaluates to {1!r}", text, e)
        require(json.dumps(e.vegalite(), sort_keys=True) == want, "{0} evaluates to another plot", text)


def check(case):
    tags = set()
    top = case["top"]
    if case["copies"] and "combo" not in top:
        top = {"combo": "overlay" if not any(c[0] in ("beside", "below") for c in top["chain"]) and top["kind"] != "heatmap" else "beside", "parts": [top] * case["copies"], "numcol": 2, "config": None, "iter": False}
    plots = []
    plot = make(top, plots)
    spec = plot.vegalite()
    again = plot.to(lambda x: x)
    bad = any(pl.bad[0] for pl in plots)
    text1 = json.dumps(spec, sort_keys=True)
    require(text1 == json.dumps(again, sort_keys=True), "two calls of vegalite give different documents")
    if bad:
        return []           # numbers that JSON cannot hold (normalizing an empty histogram)
    spec = json.loads(json.dumps(spec, allow_nan=False))
    require("vega-lite" in spec["$schema"], "schema is {0}", spec["$schema"])
    data = spec["data"]["values"]
    if "combo" in top:
        parts = structure(top, spec, iter(plots), True, tags)
        config = configs(top, {})
        if top["config"]:
            config.update(top["config"])
        require(spec.get("config", {}) == config, "config is {0} instead of {1}", spec.get("config"), config)
    else:
        pl = plots[0]
        parts = [(pl, spec["layer"] if pl.error else [spec])]
        require(spec.get("config") == top["opts"].get("config"), "config is {0} instead of {1}", spec.get("config"), top["opts"].get("config"))
        require(len(data) == len(pl.points), "{0} has {1} rows instead of {2}", pl.plot, len(data), len(pl.points))
    require(len(data) == sum(len(pl.points) for pl in plots), "there are {0} rows for plots of {1}", len(data), [len(pl.points) for pl in plots])
    for pl, nodes in parts:
        check_plot(pl, [(n, n.get("transform", [])) for n in nodes], data, tags)
        for k in ("width", "height", "title"):
            place = spec if "combo" not in top else nodes[0]
            require(place.get(k) == pl.p["opts"].get(k), "{0} has {1} {2}", pl.plot, k, place.get(k))
        require(full(pl.h) == pl.before, "plotting modified the histogram")
    if case.get("text"):
        printed(plot, top)
        tags.add("text")
    refusals(plots[0], tags)
    if len(plots) > 20:
        tags.add("many")
    return sorted(tags) if any(any(q.get("y") for q in pl.points) or any(q.get("color") for q in pl.points) for pl in plots) else []
