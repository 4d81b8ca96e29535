from gens.base import *

PATHS = ("a", "b", "n/a", "n/b", "n/m/a", "k/a", "n/m/k/l/a")


def gen(g):
    specs = {}
    for p in PATHS:
        if g.bool(0.6 if p.count("/") < 4 else 0.1):
            specs[p] = g.hist(0, 2, profiles=(0, 1), weight=0.4, filter=0.15)
    if not specs:
        specs["a"] = g.hist(1, 1)
    names = spec_fields(*specs.values())

    def book():
        out = {}
        for p in specs:
            if g.bool(0.7):
                out[p] = g.data_for(names, 0, 4) if g.bool(0.85) else None
        order = g.sample(sorted(out), len(out))
        return {"hists": [[p, out[p]] for p in order], "att": g.choice((None, {"k": 1}, {"k": 2, "l": "x"}, {"l": [1]})), "inner": g.choice((None, {"i": 1}, {"i": 2, "j": 0})), "empty": g.bool(0.15)}
    return {"specs": specs, "a": book(), "b": book(), "c": book(), "k": g.choice((0, 1, 2, 0.5, 3, 10.0)), "more": g.data_for(names, 0, 3), "cls": g.pick((4, "Book"), (1, "ChannelsBook"), (1, "SamplesBook")), "np": g.bool(0.3),
            "odd": g.choice(("name", "axis", "expr", "same", "extra", "extra-nested", "missing", "empty-nested")), "ncls": g.pick((3, None), (1, "ChannelsBook"), (1, "GenericBook"), (1, "ViewBook")), "mix": g.bool(0.2)}
