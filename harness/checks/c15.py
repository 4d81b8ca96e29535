import copy
import pickle

from core import *
import histbook.book
from histbook.book import GenericBook, SamplesBook


def build(case):
    hists = []
    for s, pre in zip(case["specs"], case["prefill"]):
        h = mkhist(s) if not (case["npw"] and isinstance(s["weight"], (int, float))) else mkhist(s, weight=numpy.float64(s["weight"]))
        if pre:
            pour(h, case["data"])
            if case["scale"] is not None:
                h *= case["scale"]
        hists.append(h)
    if case["kind"] == "hist":
        return hists[0]
    if case["samples"]:
        obj = SamplesBook(["one", "two"], dict(zip(case["paths"], hists)))
    else:
        obj = Book()
        for p, h in zip(case["paths"], hists):
            obj[p] = h
        for i, n in enumerate(case.get("within", ())):
            inner = SamplesBook(["s", "t"]) if n == "SamplesBook" else getattr(histbook.book, n)()
            for j, s in enumerate(case["specs"][:2]):
                h = mkhist(s)
                pour(h, case["data"])
                inner[("s/%d" if n == "SamplesBook" else "%d") % j] = h
            obj[("w%d" if i == 0 else "deep/w%d") % i] = inner.attach("class", n)
        if case["emptybook"]:
            obj["none"] = Book()
    for k, x in (case["att"] or {}).items():
        obj.attach(k, x)
    if not case["samples"] and "n" in obj.keys():
        obj["n"].attach("inner", [1, {"k": "v"}])
    return obj


def hists_of(obj):
    return [("", obj)] if isinstance(obj, Hist) else obj.allitems(onlyhist=True)


def restore(case, obj):
    via = case["via"]
    if via == "pickle":
        return pickle.loads(pickle.dumps(obj, case["proto"]))
    if via == "copy":
        return copy.copy(obj) if isinstance(obj, Hist) else pickle.loads(pickle.dumps(obj))
    if via == "deepcopy":
        return copy.deepcopy(obj)
    text = json.dumps(obj.tojson(), sort_keys=case["sort"])
    parsed = json.loads(text)
    keep = json.loads(text)
    out = (Hist if isinstance(obj, Hist) else GenericBook).fromjson(parsed)
    require(parsed == keep, "fromjson changed its argument")
    return out


def alike(a, b, what):
    require(type(a) is type(b), "{0} is a {1} instead of {2}", what, type(b), type(a))
    ha, hb = hists_of(a), hists_of(b)
    require([n for n, _ in ha] == [n for n, _ in hb], "{0} has histograms {1} instead of {2}", what, [n for n, _ in hb], [n for n, _ in ha])
    if not isinstance(a, Hist):
        require(a.allkeys() == b.allkeys(), "{0} has items {1} instead of {2}", what, b.allkeys(), a.allkeys())
        for (n, x), (_, y) in zip([("", a)] + a.allitems(), [("", b)] + b.allitems()):
            require(type(x) is type(y), "{0}: {1} is a {2} instead of {3}", what, n, type(y), type(x))
            require(x.attachment == y.attachment, "{0}: {1} has attachments {2} instead of {3}", what, n, y.attachment, x.attachment)
    for (n, x), (_, y) in zip(ha, hb):
        require(repr(x) == repr(y), "{0}: {1} is {2} instead of {3}", what, n, y, x)
        require(tuple(x.axis) == tuple(y.axis), "{0}: {1} has axes {2} instead of {3}", what, n, y.axis, x.axis)
        require(x.attachment == y.attachment, "{0}: {1} has attachments {2} instead of {3}", what, n, y.attachment, x.attachment)
        require(x.defs == y.defs, "{0}: {1} has definitions {2} instead of {3}", what, n, y.defs, x.defs)
        require(sorted(x.fields) == sorted(y.fields), "{0}: {1} needs fields {2} instead of {3}", what, n, y.fields, x.fields)
        same(view(y), view(x), "%s %s" % (what, n))


def check(case):
    obj = build(case)
    text = json.dumps(obj.tojson(), sort_keys=True)
    back = restore(case, obj)
    what = "restored (%s) object" % case["via"]
    require(back is not obj, "restoring gives the object itself")
    require(back == obj, "{0} {1} is not equal to {2}", what, back, obj)
    require(obj == back, "{0} {1} is not equal to {2}", what, back, obj)
    require(not (back != obj), "{0} {1} is both equal and unequal to {2}", what, back, obj)
    require(json.dumps(back.tojson(), sort_keys=True) == text, "{0} has text {1} instead of {2}", what, back.tojson(), text)
    require(json.dumps(obj.tojson(), sort_keys=True) == text, "saving changed the object")
    before = build(case)
    alike(before, obj, "object after saving")
    alike(before, back, what)
    # the restored object goes on as the original would
    more = mkdata(case["more"])
    for x in (obj, back):
        if hasattr(x, "fill"):
            x.fill(more)
        else:
            for _, h in hists_of(x):
                h.fill(more)
    alike(obj, back, what + " filled with more")
    require(back == obj, "{0}, filled alike, is not equal to {1}", what, obj)
    alike(obj, restore(case, back), what + ", restored again")
    if isinstance(obj, Hist) or not case["samples"]:
        same_list(hists_of(back + back), hists_of(obj + obj), what + " added to itself")
        same_list(hists_of(obj + back), hists_of(obj + obj), "sum of the object and the restored one")
    tags = [case["via"], case["kind"]]
    full_ = [h for _, h in hists_of(obj) if len(view(h))]
    for s, pre in zip(case["specs"], case["prefill"]):
        if not pre:
            tags.append("unfilled")
        for a in s["axes"]:
            if a["t"] == "groupbin" or a["t"] == "groupby" and a["e"] not in ("c", "d"):
                tags.append("numeric-keys")
        if s.get("weight") is not None:
            tags.append("weighted")
        if s.get("filter") is not None:
            tags.append("filtered")
        if s.get("defs"):
            tags.append("defs")
    return tags if full_ else []


def same_list(a, b, what):
    require([n for n, _ in a] == [n for n, _ in b], "{0}: names {1} instead of {2}", what, a, b)
    for (n, x), (_, y) in zip(a, b):
        same(view(x), view(y), what + " " + n)
