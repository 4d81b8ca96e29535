from core import *


def project_view(m, keep):
    """The model's sums over the axes that are not kept."""
    spec = dict(m.spec, axes=[m.binned[i] for i in keep] + m.profiles)
    out = Model(spec)
    for labels, c in m.cells.items():
        out.cell(tuple(labels[i] for i in keep)).add(c)
    return out


def check(case):
    spec = case["spec"]
    defs = spec.get("defs")
    h = mkhist(spec)
    m = Model(spec)
    if case["data"] is not None:
        pour(h, case["data"])
        m.fill(records(case["data"]))
        if case.get("pre") is not None:
            # categories may be left empty by a selection on an inner axis
            i = case["pre"] % len(m.binned)
            found = sorted(set(k[i] for k in m.cells), key=str)
            if m.binned[i]["t"] == "groupby" and m.binned[i]["e"] in ("i", "j", "k", "c", "d") and found:
                lab = found[case["pre"] // 4 % len(found)]
                h = h.select("%s == %r" % (m.binned[i]["e"], lab[1]))
                cells = m.cells
                m = Model(spec)
                for k, x in cells.items():
                    if k[i] == lab:
                        m.cell(k).add(x)
        before = full(h)
    n = len(m.binned)
    keep = [i for i in range(n) if (case["keep"] >> i) & 1]
    sup = [i for i in range(n) if (case["super"] >> i) & 1 or i in keep]
    axes = binned(h)
    args = [refer(h, axes[i], case["how"][i], defs) for i in keep]
    if case["order"]:
        args = list(reversed(args))
    out = h.project(*args)
    what = "project(%s) of %r" % (", ".join(repr(x) for x in args), h)
    want = project_view(m, keep)
    labels_ok(out, want.spec, what)
    require([repr(a) for a in binned(out)] == [repr(axes[i]) for i in keep], "{0} has axes {1}", what, out)
    require([repr(a) for a in profs(out)] == [repr(a) for a in profs(h)], "{0} has profiles {1}", what, out)
    same(view(out), want.view(), what)
    if case["data"] is not None:
        same(full(h)[0], before[0], "the original after " + what)
        require(full(h)[1:] == before[1:], "{0} changed the original: {1}", what, full(h)[1:])
    # in steps
    two = h.project(*[axes[i] for i in sup])
    same(view(two), project_view(m, sup).view(), "project onto %r of %r" % ([axes[i] for i in sup], h))
    two = two.project(*[axes[i] for i in keep])
    same(view(two), want.view(), what + " in two steps")
    one = h
    for i in range(n):
        if i not in keep:
            one = one.project(*[a for a in binned(one) if a != axes[i]])
    same(view(one), want.view(), what + " one axis at a time")
    same(view(h.project(*axes)), m.view(), "project onto all axes")
    # further fills
    if len(out.fields):
        more = Model(want.spec).fill(records(case["more"]))
        out.fill(mkdata(case["more"]))
        same(view(out), want.plus(more).view(), "filling " + what)
        same(view(h), m.view(), "the original after filling " + what)
    # refusals
    bad = [lambda: h.project("zz"), lambda: h.project(hax.bin("zz", 2, 0.0, 1.0)), lambda: h.project(len(h.axis))] + [lambda a=a: h.project(a) for a in profs(h)]
    for fcn in bad:
        require(rejects(fcn, (IndexError, TypeError, ValueError)), "project onto an axis that {0} does not have is accepted", h)
    tags = []
    if any(r["t"].startswith("group") for i, r in enumerate(m.binned) if i not in keep):
        tags.append("group-removed")
        tags.append("categories-%s" % min(5, len(set(k[0] for k in m.cells))))
    if any(not r["t"].startswith("group") for i, r in enumerate(m.binned) if i not in keep):
        tags.append("fixed-removed")
    if m.profiles:
        tags.append("profiles")
    if m.weighted:
        tags.append("weighted")
    if case["data"] is None:
        tags.append("unfilled")
    if not keep:
        tags.append("all-removed")
    return tags if len(keep) < n and len(m.cells) >= 2 else []
