from core import *


def check(case):
    spec, data = case["spec"], case["data"]
    h = mkhist(spec)
    arrays = mkdata(data)
    rep = case["rep"]
    if rep != 1:
        arrays = dict((n, numpy.tile(x, rep)) for n, x in arrays.items())
    h.fill(arrays)
    recs = records(data)
    model = Model(spec).fill(recs)
    if rep != 1:
        model = model.times(rep)
    labels_ok(h, spec, "fill")
    got = view(h)
    same(got, model.view(), "fill")

    # every value is in the set its label denotes
    placed = 0
    for i, r in enumerate(recs[:6]):
        one = mkhist(spec)
        one.fill(mkdata(subdata(data, [i])))
        v = view(one)
        require(len(v) <= 1, "one entry {0} appears in {1} bins", r, len(v))
        for labels, row in v.items():
            require(row[0] == 1.0, "one entry counted as {0}", row[0])
            for lab, a in zip(labels, model.binned):
                val = ev(a["e"], r)
                if a["t"] == "groupbin" and abs(val) > 1e15:
                    continue
                require(inside(lab, val), "value {0} of {1} is in the bin labelled {2}", val, a["e"], lab)
            placed += 1

    tags = []
    if len(got) >= 2:
        tags.append("bins>=2")
    if sum(r[0] for r in got.values()) < rep * len(recs):
        tags.append("dropped")
    if any(lab == "nan" for k in got for lab in k):
        tags.append("nanflow")
    for k in got:
        for lab in k:
            if lab[0] == "iv" and INF in lab:
                tags.append("overflow")
            if lab[0] == "iv" and -INF in lab:
                tags.append("underflow")
    for a in model.binned:
        tags.append(a["t"])
    return tags if len(got) >= 1 and len(recs) >= 2 else []
