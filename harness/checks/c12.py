from core import *


def check(case):
    spec = case["spec"]
    defs = spec.get("defs")
    h = mkhist(spec)
    m = Model(spec)
    if case["data"] is not None:
        pour(h, case["data"])
        m.fill(records(case["data"]))
        before = full(h)
    n = len(m.profiles)
    drop = [i for i in range(n) if (case["drop"] >> i) & 1] or [0]
    keep = [i for i in range(n) if i not in drop]
    ps = profs(h)
    args = [refer(h, ps[i], (0, 4, 5)[case["how"][i]], defs) for i in drop]
    if case["order"]:
        args = list(reversed(args))
    out = h.drop(*args)
    what = "drop(%s) of %r" % (", ".join(repr(x) for x in args), h)
    newspec = dict(spec, axes=m.binned + [m.profiles[i] for i in keep])
    new = Model(newspec)
    if case["data"] is not None:
        new.fill(records(case["data"]))
    require([repr(a) for a in binned(out)] == [repr(a) for a in binned(h)], "{0} has axes {1}", what, out)
    require([repr(a) for a in profs(out)] == [repr(ps[i]) for i in keep], "{0} has profiles {1}", what, out)
    same(view(out), new.view(), what)
    if case["data"] is not None:
        same(full(h)[0], before[0], "the original after " + what)
        require(full(h)[1:] == before[1:], "{0} changed the original: {1}", what, full(h)[1:])
    one = h
    for i in reversed(drop):
        one = one.drop(ps[i])
    same(view(one), new.view(), what + " one at a time")
    if len(out.fields):
        out.fill(mkdata(case["more"]))
        same(view(out), new.plus(Model(newspec).fill(records(case["more"]))).view(), "filling " + what)
        same(view(h), m.view(), "the original after filling " + what)
    for fcn, why in [(lambda: h.drop(), "nothing"), (lambda: h.drop("zz"), "an unknown profile"), (lambda: h.drop(hax.profile("zz")), "an unknown profile"),
                     (lambda: out.drop(*args), "profiles that were dropped")] + [(lambda a=a: h.drop(a), "an axis that is not a profile") for a in binned(h)]:
        require(rejects(fcn, (IndexError, TypeError, ValueError)), "dropping {0} is accepted by {1}", why, h)
    tags = ["drop-%d-of-%d" % (len(drop), n)]
    if m.weighted:
        tags.append("weighted")
    if case["data"] is None:
        tags.append("unfilled")
    return tags if len(m.view()) else []
