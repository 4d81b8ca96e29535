from gens.base import *

LARGE = True

NAMES = ("one", "two", "a", "b", "1", "NaN", "x y", "")
BY = ("source", "source", "src", "sample")


def gen(g):
    if g.bool(0.35):
        return {"book": book(g)}
    spec = with_defs(g, g.hist(0, 3, profiles=(0, 2), weight=0.4, filter=0.2), 0.15)
    if spec["weight"] == "w*v":
        spec["weight"] = "w"
    names = spec_fields(spec)
    if "w" not in names:
        names = list(names) + ["w"]
    by = g.choice(BY)

    def member():
        out = {"data": g.data_for(names, 0, 6) if g.bool(0.85) else None}
        if (spec["weight"] is not None or spec["filter"] is not None) and g.bool(0.35):
            out["weight"] = g.choice(("w", "2*w", "w + 1", 2.0, 1.0) if g.bool() else ("w", 2.0))
        if g.bool(0.2):
            out["att"] = {"k": g.int(0, 3)}
        if g.bool(0.3):
            out["defs"] = g.choice(({"s": "u - 1"}, {"t": "w*2"}, {"s": "u - 1", "t": "w*2"}, {"a1": 3}))
        return out

    def step():
        return [[n, member()] for n in g.sample(NAMES, g.int(1, 2))]
    first = [[n, member()] for n in g.sample(NAMES, g.pick((1, 1), (3, 2), (3, 3), (1, 4)))]
    more = g.data_for(list(names) + [], 1, 4)
    return {"spec": spec, "by": by, "first": first, "steps": [step() for _ in range(g.int(0, 4))], "between": [g.below(6) for _ in range(4)],
            "more": more, "keys": [g.choice(NAMES) for _ in range(more["n"])], "odd": g.below(8), "odddata": g.data_for(names, 0, 3)}


PATHS = ("a", "b", "n/a", "n/b", "n/m/a", "k/a")


def book(g):
    specs = {}
    for p in PATHS:
        if g.bool(0.6):
            specs[p] = g.hist(0, 2, profiles=(0, 1), weight=0.4, filter=0.15)
    if not specs:
        specs["a"] = g.hist(1, 1)
    names = spec_fields(*specs.values())
    books = []
    for n in g.sample(NAMES, g.pick((1, 1), (4, 2), (2, 3))):
        some = [p for p in specs if g.bool(0.75)]
        books.append([n, {"hists": [[p, g.data_for(names, 0, 4) if g.bool(0.85) else None] for p in g.sample(some, len(some))], "att": g.choice((None, {"k": 1}, {"l": "x"}))}])
    return {"specs": specs, "books": books, "by": g.choice(BY), "odd": g.below(4), "more": g.data_for(names, 1, 3), "cls": g.pick((4, "Book"), (1, "ChannelsBook"))}
