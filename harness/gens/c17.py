from gens.base import *

NAMES = ("a", "b", "ab", "n", "m", "n/a", "n/b", "n/m", "n/m/a", "m/a", "m/n/b", "b/a", "x y", "n/x y", "A", "1", "n/1", "", "n/", "a.b", "m/n/m/ab", "n/A", "N", "m/n/m/n/m/a")
PATTERNS = ("*", "a*", "*a", "n/*", "*/a", "?", "??", "n/?", "[ab]", "[!a]", "n/m/*", "*/*", "m*", "zz*", "*b*", "[ab]b", "n*a", "*/m/*", "A*", "?/*", "n/[a-m]", "*[ /]*")


def gen(g):
    start = g.pick((3, {"how": "empty"}), (1, {"how": "dict", "names": g.sample(NAMES[:11], g.int(0, 4))}), (1, {"how": "kwargs", "names": g.sample(("a", "b", "n", "m"), g.int(0, 3))}), (1, {"how": "varargs", "n": g.pick((8, g.int(1, 3)), (1, g.int(4, 14)))}),
                   (1, {"how": "both", "names": g.sample(("a", "n/a", "m"), g.int(0, 3)), "kw": g.sample(("b", "ab", "a"), g.int(0, 2))}))
    live = list(start.get("names", ()))
    ops = []

    def there():
        return g.choice(live) if live and g.bool(0.7) else g.choice(NAMES)
    for _ in range(g.int(1, 12 if not g.big else 30)):
        k = g.below(20)
        if k < 8:
            p = g.choice(NAMES)
            live.append(p)
            ops.append({"op": "set", "path": p, "kind": g.pick((8, "hist"), (2, "book"), (2, "full"), (1, "samples"), (1, "channels"), (1, "generic"), (1, "emptygeneric"))})
        elif k < 10:
            ops.append({"op": "del", "path": there()})
        elif k < 12:
            ops.append({"op": "get", "path": there()})
        elif k < 14:
            ops.append({"op": "glob", "pattern": g.choice(PATTERNS)})
        elif k == 14:
            ops.append({"op": "delglob", "pattern": g.choice(PATTERNS)})
        elif k == 15:
            ops.append({"op": "bad", "which": g.below(6), "path": there()})
        elif k == 16:
            ops.append({"op": "pop", "path": there(), "default": g.bool()})
        elif k == 17:
            ops.append({"op": "setdefault", "path": there()})
        elif k == 18:
            ops.append({"op": "update", "paths": g.sample(NAMES, g.int(0, 3)), "kw": g.sample(("a", "b", "q"), g.int(0, 1))})
        else:
            ops.append({"op": "inner", "path": there(), "name": g.choice(("a", "b", "m", "m/a")), "del": g.bool(0.3)})
    return {"start": start, "ops": ops, "cls": g.choice(("Book", "Book", "GenericBook", "ChannelsBook"))}
