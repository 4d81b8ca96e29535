from core import *


def check(case):
    spec, fills = case["spec"], case["fills"]
    h = mkhist(spec)
    for d in fills:
        h.fill(mkdata(d))
    allrecs = [r for d in fills for r in records(d)]
    model = Model(spec).fill(allrecs)
    labels_ok(h, spec, "fill")
    got = view(h)
    same(got, model.view(), "fill")

    # each profile column belongs to its own expression, whatever is asked for and in whatever order
    ps = profs(h)
    if len(ps) >= 2:
        content, cols = h.table(*reversed(ps), effcount=True, recarray=False, columns=True)
        for labels, row in walk(binned(h), content):
            want = got.get(labels)
            if want is not None:
                n = len(ps)
                back = list(row[:3])
                for i in range(n):
                    back += row[3 + 2 * (n - 1 - i):5 + 2 * (n - 1 - i)]
                require(rownear(tuple(back), want), "profiles in reverse order: bin {0} holds {1} instead of {2}", labels, back, want)

    # a filter is a factor 1 or 0 in the weight
    if spec.get("filter") is not None:
        w = spec.get("weight")
        other = dict(spec, filter=None, weight="where(%s, 1, 0)%s" % (spec["filter"], "" if w is None else " * (%s)" % (w,)))
        h2 = mkhist(other)
        for d in fills:
            h2.fill(mkdata(d))
        same(view(h2), got, "filter written into the weight")

    tags = []
    if model.weighted:
        tags.append("weighted" if spec.get("weight") is not None else "filtered")
    if spec.get("filter") is not None:
        tags.append("filter")
    if len(ps):
        tags.append("profiles%d" % len(ps))
    if any(c.n >= 2 for c in model.cells.values()):
        tags.append("several-in-a-bin")
    if any(r.get("w", 0) != r.get("w", 0) for r in allrecs):
        tags.append("nan-weight")
    if any(c.w < 0 for c in model.cells.values()):
        tags.append("negative-bin")
    return tags if len(got) >= 1 and len(allrecs) >= 2 and (model.weighted or len(ps)) else []
