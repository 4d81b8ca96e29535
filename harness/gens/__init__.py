import importlib

from hypothesis.strategies import SearchStrategy

from gens.base import G


class Cases(SearchStrategy):
    """A strategy from a plain function of G, whose choices Hypothesis records and shrinks."""

    def __init__(self, fcn, tier, large=False):
        super().__init__()
        self.large = large
        self.fcn = fcn
        self.tier = tier

    def __repr__(self):
        return "Cases(%s)" % self.fcn.__module__

    def do_draw(self, data):
        g = G(data, self.tier)
        if self.large:
            g.large = g.bool(0.012)
        return self.fcn(g)


def strategy(prop, tier):
    mod = importlib.import_module("gens." + prop.lower())
    return Cases(mod.gen, tier, getattr(mod, "LARGE", False))
