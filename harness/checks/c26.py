from core import *
import fakeroot

ROOT = fakeroot.install()


def check(case):
    spec = case["spec"]
    defs = spec.get("defs")
    h, m = mkhist(spec), Model(spec)
    if case["data"] is not None:
        pour(h, case["data"])
        m.fill(records(case["data"]))
    if case["scale"] is not None:
        h, m = h * case["scale"], m.times(case["scale"])
    before = full(h)
    axes, ps = binned(h), profs(h)
    bins = [a for a in axes if isinstance(a, hax.bin)]
    tags = []
    for req in case["reqs"]:
        a = bins[req["bin"]]
        s = [x for x in m.binned if x["t"] == "bin"][req["bin"]]
        at = [i for i, x in enumerate(axes) if x is a][0]
        args = [refer(h, a, req["how"][0], defs)]
        k = req["prof"]
        if k is not None:
            args.append(refer(h, ps[k], req["how"][1], defs))
            if req["swap"]:
                args.reverse()
        elif req["default"] and len(axes) == 1:
            args = []
        opts = {}
        for n in ("name", "title"):
            if req[n] is not None:
                opts[n] = req[n]
        cache = {}
        if req["cache"]:
            opts["cache"] = cache
        out = h.root(*args, **opts)
        what = "root(%s) of %r" % (", ".join(repr(x) for x in args), h)
        require(type(out) is (ROOT.TH1D if k is None else ROOT.TProfile), "{0} is a {1}", what, type(out))
        require(out.GetName() == (req["name"] or "") and out.GetTitle() == (req["title"] or ""), "{0} is named {1!r}, {2!r}", what, out.GetName(), out.GetTitle())
        if req["cache"]:
            require(list(cache.items()) == [(req["name"] or "", out)], "{0}: the cache holds {1}", what, cache)
        require(out.GetNbinsX() == s["n"] and out.limits() == (s["lo"], s["hi"]), "{0} has {1} bins in {2}", what, out.GetNbinsX(), out.limits())
        # the sums of the bins
        sums = Model(dict(spec, axes=[s] + [x for x in spec["axes"] if x["t"] == "profile"]))
        for labels, c in m.cells.items():
            sums.cell((labels[at],)).add(c)
        labels = fixed_labels(s)
        inner = [l for l in labels if l != "nan" and l[1] != -INF and l[2] != INF]
        require(len(inner) == s["n"], "harness: {0}", inner)
        want = [None] + inner + [None]
        for l in labels:
            if l != "nan" and l[1] == -INF:
                want[0] = l
            elif l != "nan" and l[2] == INF:
                want[-1] = l
        for i, l in enumerate(want):
            row = sums.row(sums.cells[(l,)]) if l is not None and (l,) in sums.cells else (0.0,) * (3 + 2 * len(ps))
            if k is None:
                value, error, tol = row[0], row[1], 1e-9
            else:
                value, error, tol = row[3 + 2 * k], row[4 + 2 * k], 3e-7 * max(1.0, abs(row[3 + 2 * k]))
                require(near(out.GetBinEntries(i), row[0], 1e-9), "{0}: bin {1} has {2} entries instead of {3}", what, i, out.GetBinEntries(i), row[0])
            require(near(out.GetBinContent(i), value, 1e-9), "{0}: bin {1} ({2}) holds {3} instead of {4}", what, i, l, out.GetBinContent(i), value)
            if k is not None and row[0] <= 0:
                continue        # no error of a mean over entries that weigh less than nothing
            require(near(out.GetBinError(i), error, tol), "{0}: bin {1} ({2}) has error {3} instead of {4}", what, i, l, out.GetBinError(i), error)
        if sums.view():
            tags.append("counts" if k is None else "profile")
            if not (s["u"] and s["o"] and s["N"]):
                tags.append("flows off")
            if len(axes) > 1:
                tags.append("projected")
    require(full(h) == before, "exporting modified the histogram")
    require(rejects(lambda: h.root("zz"), (IndexError, TypeError, ValueError)), "root of an unknown axis is accepted")
    require(rejects(lambda: h.root(hax.bin("zz", 2, 0.0, 1.0)), (IndexError, TypeError, ValueError)), "root of an unknown axis is accepted")
    require(rejects(lambda: h.root(bins[0], nonsense=1), TypeError), "root with an unknown option is accepted")
    if len(ps) > 1:
        require(rejects(lambda: h.root(bins[0], ps[0], ps[1]), (TypeError, ValueError)), "root of two profiles is accepted")
    return tags
