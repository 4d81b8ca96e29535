from core import *


def check(case):
    conds, defs, data = case["conds"], case["defs"], case["data"]
    recs = records(data)
    n = len(recs)
    arrays = mkdata(data)
    if "c" in (data.get("dt") or {}):
        arrays["c"] = numpy.array(data["cols"]["c"], dtype=object)
    arrays["k"] = numpy.arange(n)
    arrays["w"] = numpy.arange(n) + 1.0
    distinct = list(collections.OrderedDict.fromkeys(conds))
    opts = {"defs": dict(defs)} if defs else {}

    def build():
        out = collections.OrderedDict()
        out["cuts"] = Hist(hax.groupby("k"), *[hax.cut(c) for c in distinct], **opts)
        out["filter"] = Hist(hax.groupby("k"), filter=conds[0], **dict(opts, **({"weight": "w"} if case["weight"] else {})))
        out["where"] = Hist(hax.groupby("k"), *[hax.profile("where(%s, 3, u)" % c) for c in distinct], **opts)
        out["both"] = Hist(hax.groupby("k"), hax.cut(conds[-1]), filter=conds[0], **opts)
        out["weight"] = Hist(hax.groupby("k"), weight="where(%s, 2, 1)" % conds[-1], **opts)
        return out

    want = [[bool(ev(c, r, dict((k, x) for k, x in defs.items()))) for r in recs] for c in distinct]
    index = dict((c, i) for i, c in enumerate(distinct))
    alone = build()
    with numpy.errstate(all="ignore"):
        for h in alone.values():
            h.fill(arrays)
        book = Book(**build())
        book.fill(arrays)
    for hists, how in ((alone, ""), (book, " (in a book)")):
        for labels, row in walk(binned(hists["cuts"]), hists["cuts"].table(recarray=False)):
            k = labels[0][1]
            expected = 1.0 if all(labels[1 + i] == ("k", want[i][k]) for i in range(len(distinct))) else 0.0
            require(row[0] == expected, "cuts {0}: {1} has {2} entries instead of {3} for {4} with {5}{6}", distinct, labels[1:], row[0], expected, recs[k], defs, how)
        for labels, row in walk(binned(hists["filter"]), hists["filter"].table(recarray=False)):
            k = labels[0][1]
            expected = (1.0 + k if case["weight"] else 1.0) if want[0][k] else 0.0
            require(row[0] == expected, "filter {0}: count is {1} instead of {2} for {3} with {4}{5}", conds[0], row[0], expected, recs[k], defs, how)
        h = hists["where"]
        for labels, row in walk(binned(h), h.table(*profs(h), recarray=False)):
            k = labels[0][1]
            for i, c in enumerate(distinct):
                expected = 3.0 if want[i][k] else float(recs[k]["u"])
                require(row[2 + 2 * i] == expected, "where({0}, 3, u) is {1} instead of {2} for {3} with {4}{5}", c, row[2 + 2 * i], expected, recs[k], defs, how)
        for labels, row in walk(binned(hists["both"]), hists["both"].table(recarray=False)):
            k = labels[0][1]
            expected = 1.0 if want[0][k] and labels[1] == ("k", want[index[conds[-1]]][k]) else 0.0
            require(row[0] == expected, "cut {0} with filter {1}: {2} has {3} instead of {4} for {5}{6}", conds[-1], conds[0], labels[1:], row[0], expected, recs[k], how)
        for labels, row in walk(binned(hists["weight"]), hists["weight"].table(recarray=False)):
            k = labels[0][1]
            expected = 2.0 if want[index[conds[-1]]][k] else 1.0
            require(row[0] == expected, "weight where({0}, 2, 1) is {1} for {2}{3}", conds[-1], row[0], recs[k], how)
    for text in ("u + v", "2*u", "u*v - 1", "-u"):
        require(rejects(lambda: Hist(hax.groupby("k"), filter=text), (TypeError, ValueError)), "the number {0} is accepted as a filter", text)
    tags = []
    flat = [x for w in want for x in w]
    if any(flat) and not all(flat):
        tags.append("both-outcomes")
    for t in (" and ", " or ", "not ", " in ", "'", "where(", "=="):
        if any(t in c for c in conds):
            tags.append("has " + t.strip())
    if defs:
        tags.append("defs")
    return tags if any(flat) and not all(flat) else []
