from gens.base import *

SAMPLES = ("s", "t", "st", "data", "mc 1", "S", "T", "tt", "ts")
PATHS = ("a", "b", "n/a", "n/b", "n/m/a", "ab", "A", "n/m/k/l/a")
ALL = ("u", "v", "w", "i", "j", "c", "d", "p", "q", "x", "y", "z")


def onehist(g):
    while True:
        s = g.hist(0, 2, profiles=(0, 1), weight=0.4, filter=0.15)
        if spec_fields(s):
            return s


def pattern(g, samples, paths):
    parts = [g.pick((3, "*"), (3, g.choice(samples)), (1, "?"), (1, "s*"), (1, "[st]"), (1, "*t"), (1, "[!s]*"))]
    parts += g.pick((2, ["*"]), (3, [g.choice(paths)]), (1, ["?"]), (1, ["n", "*"]), (1, ["*", "a"]), (1, ["*b"]), (1, []), (1, ["n"]), (1, ["*/?"]))
    return "/".join(parts)


def gen(g):
    if g.bool(0.35):
        return {"sys": sysbook(g)}
    paths = [p for p in g.sample(PATHS, g.int(1, 4))]
    samples = g.sample(SAMPLES, g.pick((8, g.int(1, 3)), (1, g.int(4, 9))))
    specs = [[p, onehist(g), g.bool(0.25)] for p in paths]
    names = spec_fields(*[s for _, s, _ in specs])
    extra = [onehist(g) for _ in range(2)]
    names = sorted(set(names) | set(spec_fields(*extra)))
    ops = []
    for _ in range(g.int(1, 7 if not g.big else 14)):
        k = g.below(14)
        if k < 5:
            ops.append({"op": "view", "pat": pattern(g, samples, paths), "data": g.data_for(names, 0, 4), "only": g.bool()})
        elif k < 7:
            ops.append({"op": "old", "i": g.below(4), "data": g.data_for(names, 0, 4), "only": g.bool()})
        elif k == 7:
            ops.append({"op": "sample", "s": g.choice(samples), "data": g.data_for(names, 0, 4)})
        elif k == 8:
            ops.append({"op": "alone", "s": g.choice(samples), "p": g.choice(paths), "data": g.data_for(names, 0, 4)})
        elif k == 9:
            ops.append({"op": "template", "p": g.choice(paths), "data": g.data_for(names, 1, 4)})
        elif k == 10:
            ops.append({"op": "set", "s": g.choice(samples), "p": g.choice(PATHS + ("new",)), "spec": g.below(2)})
        elif k == 11:
            ops.append({"op": "del", "s": g.choice(samples), "p": g.choice(paths)})
        elif k == 12:
            ops.append({"op": "copy", "how": g.choice(("copy", "copyonfill", "json", "pickle"))})
        else:
            ops.append({"op": "clear", "s": g.choice(samples)})
    return {"specs": specs, "samples": samples, "unseen": g.bool(0.3), "how": g.choice(("dict", "kw", "pos", "assign")), "first": g.data_for(names, 0, 4), "extra": extra, "ops": ops,
            "att": g.bool(0.3), "channels": g.bool(0.25), "bad": g.choice(("zz", "zz/*", "s", "*/zz", "?/?/?/?/?"))}


SYSPATHS = ("a", "b", "c", "n/a", "n/b", "m/a", "m/b")


def sysbook(g):
    base = onehist(g)
    other = onehist(g)

    def variant():
        s = dict(base, axes=[dict(a) for a in base["axes"]])
        k = g.below(9)
        if k == 0:
            s = dict(other, axes=[dict(a) for a in other["axes"]])
        elif k == 1 and s["axes"]:
            i = g.below(len(s["axes"]))
            a = s["axes"][i]
            if a["t"] == "bin":
                a["hi"] = a["hi"] + 1.0
                a["n"] = max(1, a["n"])
            elif a["t"] == "split":
                a["edges"] = sorted(a["edges"]) + [max(a["edges"]) + 3.0]
            elif a["t"] == "intbin":
                a["max"] += 1
            elif a["t"] == "groupbin":
                a["w"] *= 2
        elif k == 2:
            for a in s["axes"]:
                if a["t"] in ("bin", "split", "groupbin"):
                    a["e"] = "v + 17"
                    break
        elif k == 3:
            s["axes"] = s["axes"] + [g.a_profile("u*v + 3")]
        elif k == 4:
            s["weight"] = g.choice((None, "w", 2.0, "w + 1"))
        s["sys"] = [g.int(-2, 2)] if g.bool(0.9) else None
        return s
    ops = []
    names = set(spec_fields(base, other)) | set(["u", "v", "w"])
    for _ in range(g.int(2, 8)):
        k = g.below(10)
        if k < 6:
            ops.append({"op": "set", "p": g.choice(SYSPATHS), "spec": variant()})
        elif k == 6:
            ops.append({"op": "setbook", "p": g.choice(("n", "m")), "specs": [[n, variant()] for n in g.sample(("a", "b"), g.int(0, 2))]})
        elif k == 7:
            ops.append({"op": "del", "p": g.choice(SYSPATHS + ("n", "m"))})
        elif k == 8:
            ops.append({"op": "copy", "how": g.choice(("copy", "copyonfill", "json", "pickle"))})
        else:
            ops.append({"op": "fill", "data": g.data_for(sorted(names), 0, 4)})
    ops.append({"op": "fill", "data": g.data_for(sorted(names), 1, 4)})
    return {"ops": ops, "unseen": g.bool(0.3), "start": [[n, variant()] for n in g.sample(("a", "b", "c"), g.int(0, 2))]}
