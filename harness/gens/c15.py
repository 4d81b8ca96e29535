from gens.base import *

LARGE = True

ATT = (None, None, {"note": "a"}, {"fit": {"mean": 1.5, "ok": True, "none": None}, "list": [1, 2.5, "x", [True]]}, {"é": "ü ☃ \"quoted\" \n"}, {"n": 0})


def onehist(g):
    if not g.large and g.bool(0.3):
        # axes on which labels are hardest to write as text
        axes = [g.choice((g.a_groupby("i"), g.a_groupby("u"), g.a_groupby("p"), g.a_groupbin("x"), g.a_groupbin("y"), g.a_groupby("c")))]
        if g.bool(0.4):
            axes.append(g.choice((g.a_groupbin("z"), g.a_groupby("d"), g.a_groupby("j"))))
        if g.bool():
            axes.append(g.a_bin("v"))
        spec = {"axes": axes + g.profiles(0, 1), "weight": g.weight(0.4), "filter": g.filter(0.2)}
    else:
        spec = g.hist(0, 3, profiles=(0, 2), weight=0.5, filter=0.3)
    if isinstance(spec["weight"], float) and g.bool(0.6):
        # a number that is not its own abbreviation
        spec["weight"] = g.choice((0.1234567891, 0.1, 1234567.875, 7.000001))
    spec = with_defs(g, spec, 0.3)
    if "defs" in spec and g.bool(0.3):
        spec["defs"]["s"] = g.choice((2, 0.5, "v - 1"))
    spec["att"] = g.choice(ATT)
    if g.bool(0.15):
        spec["sys"] = [g.quarter(), g.int(0, 2)]
    return spec


def gen(g):
    kind = g.pick((3, "hist"), (2, "book"))
    n = 1 if kind == "hist" else g.int(0, 4)
    specs = [onehist(g) for _ in range(n)]
    names = spec_fields(*specs)
    paths = [g.choice(("a", "b", "n/a", "n/b", "n/m/c", "name with space", "0")) + ("" if i == 0 else str(i)) for i in range(n)]
    return {"kind": kind, "specs": specs, "paths": paths, "prefill": [g.bool(0.85) for _ in specs], "data": g.data_for(names, 0, 8), "more": g.data_for(names, 0, 5),
            "att": g.choice(ATT), "proto": g.int(0, 4), "via": g.choice(("json", "pickle", "copy", "deepcopy", "json", "pickle")), "scale": g.choice((None, None, 2, 0.5)),
            "npw": g.bool(0.15), "sort": g.bool(0.3), "samples": g.bool(0.2), "emptybook": g.bool(0.2), "within": g.sample(("SamplesBook", "ChannelsBook", "GenericBook", "ViewBook"), g.pick((4, 0), (2, 1), (1, 2)))}
