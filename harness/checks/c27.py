import pickle

from core import *
from checks.c09 import status

WEIGHTS = ("w", "2*w", 3.0, "w + 1", None, 0.5)
FILTERS = ("u > 0", "not q and u > 0", "p or q", None)


class State(object):
    """The histogram a chain of operations should give: its specification and its cells."""
    def __init__(self, spec, cells=None):
        self.spec = spec
        self.m = Model(spec)
        if cells is not None:
            self.m.cells = cells

    def copy(self):
        return self.mapped(self.spec, lambda k: k)

    def mapped(self, spec, fcn, keepprof=None):
        out = State(spec)
        for k, c in self.m.cells.items():
            k2 = fcn(k)
            if k2 is not None:
                if keepprof is not None:
                    d = Cell(len(keepprof))
                    d.n, d.w, d.w2, d.wx, d.wx2 = c.n, c.w, c.w2, [c.wx[i] for i in keepprof], [c.wx2[i] for i in keepprof]
                    c = d
                out.m.cell(k2).add(c)
        return out


def newlabel(lab, new):
    """The label of the rebinned axis that contains the old one."""
    if lab == "nan":
        return "nan"
    labels = fixed_labels(new) if new["t"] != "groupbin" else None
    if labels is None:
        if abs(lab[1]) == INF:
            return iv(lab[1], lab[1] + new["w"], new["cl"], not new["cl"])
        return classify(new, (lab[1] + lab[2]) / 2.0)
    for n in labels:
        if n == "nan":
            continue
        if lab[0] == "k":
            if inside(n, lab[1]):
                return n
        elif lab[1] == -INF:
            if n[1] == -INF:
                return n
        elif lab[2] == INF:
            if n[2] == INF:
                return n
        elif n[1] <= lab[1] and lab[2] <= n[2]:
            return n
    return None


def replaced(spec, old, new):
    return dict(spec, axes=[x for x in [new if a is old else a for a in spec["axes"]] if x is not None])


def check(case):
    h = mkhist(case["spec"])
    st = State(case["spec"])
    past = []
    tags = set()
    names = []

    # looking at an unfilled histogram may give it contents: look at a twin instead, in some of the cases
    see = (lambda x: view(jsonround(x))) if case.get("unseen") else view

    def verify(h, st, what):
        labels_ok(h, st.spec, what)
        same(see(h), st.m.view(), what)
        require([a.expr for a in h.axis] == [a["e"] for a in st.m.binned + st.m.profiles], "{0} has axes {1}", what, h)
        require(h.attachment == (st.spec.get("att") or {}), "{0} has attachments {1} instead of {2}", what, h.attachment, st.spec.get("att"))
        require(h.defs == (st.spec.get("defs") or {}), "{0} has definitions {1} instead of {2}", what, h.defs, st.spec.get("defs"))
        require(set(h.fields) == set(mkhist(st.spec).fields), "{0} needs fields {1} instead of {2}", what, h.fields, mkhist(st.spec).fields)

    def dofill(h, st, data):
        if len(h.fields) == 0:
            return False
        pour(h, data)
        st.m.fill(records(data))
        return True

    for s in case["steps"]:
        op, a, b = s["op"], s["a"], s["b"]
        bn, pr = st.m.binned, st.m.profiles
        old, oldst = h, st
        inplace = False
        if op == "fill":
            st = st.copy()
            if not dofill(h, st, s["data"]):
                continue
            inplace = True
        elif op == "copy":
            h, st = h.copy(), st.copy()
        elif op == "copyonfill":
            h, st = h.copyonfill(), st.copy()
        elif op == "json":
            h, st = jsonround(h), st.copy()
        elif op == "pickle":
            h, st = pickle.loads(pickle.dumps(h, b % 3)), st.copy()
        elif op == "cleared":
            h, st = h.cleared(), State(st.spec)
        elif op == "clear":
            h.clear()
            st, inplace = State(st.spec), True
        elif op == "weight":
            e = WEIGHTS[a % len(WEIGHTS)]
            h, st = h.weight(e), State(dict(st.spec, weight=e))
        elif op == "filter":
            e = FILTERS[a % len(FILTERS)]
            h, st = h.filter(e), State(dict(st.spec, filter=e))
        elif op == "systematic":
            if h.has("systematic"):
                continue
            h, st = h.systematic([a, b]), State(dict(st.spec, att=dict(st.spec.get("att") or {}, systematic=[a, b])))
        elif op == "attach":
            require(h.attach("k%d" % (a % 2), b) is h, "attach does not return the histogram")
            st, inplace = st.copy(), True
            st.spec = st.m.spec = dict(st.spec, att=dict(st.spec.get("att") or {}, **{"k%d" % (a % 2): b}))
        elif op == "detach":
            have = sorted(h.attachment)
            if not have:
                continue
            k = have[a % len(have)]
            require(h.detach(k) is h and not h.has(k), "detach does not remove {0}", k)
            st, inplace = st.copy(), True
            st.spec = st.m.spec = dict(st.spec, att=dict((n, x) for n, x in st.spec["att"].items() if n != k))
        elif op == "project":
            keep = [i for i in range(len(bn)) if (a >> i) & 1 or (b >> i) & 1]
            if len(keep) == len(bn):
                keep = keep[:-1] if b % 2 else keep[1:]
            h = h.project(*[refer(h, binned(h)[i], b, st.spec.get("defs")) for i in keep])
            st = st.mapped(dict(st.spec, axes=[bn[i] for i in keep] + pr), lambda k: tuple(k[i] for i in keep))
        elif op == "drop":
            if not pr:
                continue
            i = a % len(pr)
            h = h.drop(profs(h)[i])
            keep = [j for j in range(len(pr)) if j != i]
            st = st.mapped(dict(st.spec, axes=bn + [pr[j] for j in keep]), lambda k: k, keepprof=keep)
        elif op in ("rebinby", "rebin"):
            can = [i for i, x in enumerate(bn) if x["t"] in ("bin", "split", "intbin") or (x["t"] == "groupbin" and op == "rebinby")]
            can = [i for i in can if bn[i]["t"] != "bin" or bn[i]["n"] > 0]
            if not can:
                continue
            i = can[a % len(can)]
            x = bn[i]
            ref = refer(h, binned(h)[i], b, st.spec.get("defs"))
            if x["t"] == "groupbin":
                f = 1 + b % 3
                h = h.rebinby(ref, f)
                new = dict(x, w=x["w"] * f)
            else:
                edges = [j - 0.5 for j in range(x["min"], x["max"] + 2)] if x["t"] == "intbin" else None
                if edges is None:
                    keys = [k for k in binned(h)[i].keys() if isinstance(k, Interval) and not isinstance(k, IntervalNaN)]
                    edges = sorted(set([k.low for k in keys] + [k.high for k in keys]) - set([INF, -INF])) or edges_of(x)
                new = {"t": "split", "e": x["e"], "u": x["u"], "o": x["o"], "N": x.get("N", False), "cl": x.get("cl", True)}
                if op == "rebinby":
                    f = 1 + b % 3
                    h = h.rebinby(ref, f)
                    new["edges"] = edges[:-1:f] + edges[-1:]
                else:
                    some = [y for j, y in enumerate(edges) if (b >> j) & 1] or edges[:1]
                    if len(some) == 1 and not (new["u"] or new["o"] or new["N"]):
                        some = edges[:2]
                    h = h.rebin(ref, some)
                    new["edges"] = some
            st = st.mapped(replaced(st.spec, x, new), lambda k: None if newlabel(k[i], new) is None else k[:i] + (newlabel(k[i], new),) + k[i + 1:])
        elif op == "select":
            i = a % len(bn) if bn else None
            if i is None:
                continue
            x = bn[i]
            t, new, lit = x["t"], x, None
            if t == "groupby" and x["e"] in ("c", "d", "i", "u"):
                v = ("a", "b", "aa")[b % 3] if x["e"] in ("c", "d") else b % 3
                lit = {"op": ("==", "!=")[(b >> 2) % 2], "v": v}
            elif t == "cut" and x["e"] == "p":
                text = ("p", "not p")[b % 2]
                want = ("k", b % 2 == 0)
                h = h.select(text)
                st = st.mapped(replaced(st.spec, x, None), lambda k: k[:i] + k[i + 1:] if k[i] == want else None)
            elif t == "intbin" and x["max"] - x["min"] > 1:
                v = x["min"] + 1 + b % (x["max"] - x["min"] - 1)
                lit = {"op": ("<", "<=", ">", ">=")[(b >> 3) % 4], "v": v}
                new = dict(x, o=False) if lit["op"] in ("<", "<=") else dict(x, u=False)
                if lit["op"] in ("<", "<="):
                    new["max"] = v - 1 if lit["op"] == "<" else v
                else:
                    new["min"] = v if lit["op"] == ">=" else v + 1
            elif t in ("bin", "split", "groupbin"):
                edges = [x["org"] + x["w"] * (b % 5 - 2)] if t == "groupbin" else edges_of(x)[1:-1]
                if edges:
                    j = (b >> 2) % len(edges)
                    up = b % 2 == 0
                    lit = {"op": (">=" if up else "<") if x["cl"] else (">" if up else "<="), "v": edges[j]}
                    if t == "bin":
                        new = dict(x, n=x["n"] - j - 1, lo=edges[j], u=False, N=False) if up else dict(x, n=j + 1, hi=edges[j], o=False, N=False)
                    elif t == "split":
                        e = edges_of(x)
                        new = dict(x, edges=e[j + 1:], u=False, N=False) if up else dict(x, edges=e[:j + 2], o=False, N=False)
            if lit is not None:
                h = h.select("%s %s %r" % (x["e"], lit["op"], lit["v"]))
                if isinstance(lit["v"], float):
                    lit["v"] = num(lit["v"])
                st = st.mapped(replaced(st.spec, x, new), lambda k: k if status(lit, k[i], t == "intbin") else None)
            elif h is old:
                continue
        elif op in ("scale", "rscale", "iscale"):
            k = (2, 0.5, 3, 0)[a % 4]
            cells = st.m.times(k).cells
            if op == "scale":
                h = h * k
            elif op == "rscale":
                h = k * h
            else:
                h *= k
                require(h is old, "*= makes another histogram")
                inplace = True
            st = State(st.spec, cells)
        elif op in ("add", "iadd"):
            other, ost = h.cleared(), State(st.spec)
            if s["data"] is not None and not dofill(other, ost, s["data"]):
                continue
            cells = st.m.plus(ost.m).cells
            if op == "add":
                h = h + other if b % 2 else other + h
            else:
                h += other
                require(h is old, "+= makes another histogram")
                inplace = True
            st = State(st.spec, cells)
            # (the sum has the attachments of one of them, which are equal)
        names.append(op)
        what = "%s after %s" % (op, ", ".join(names[:-1]) or "nothing")
        verify(h, st, what)
        if inplace:
            require(h is old, "harness")
        else:
            past.append((old, oldst, "the histogram before %s, after %s" % (op, ", ".join(names[:-1]))))
            tags.add(op)
    if dofill(h, st, case["last"]):
        verify(h, st, "fill after " + ", ".join(names))
    for x, xst, what in past[-6:]:
        verify(x, xst, what)
    # all of it is that of a histogram made directly
    direct = mkhist(st.spec)
    if len(direct.fields):
        again = h.cleared()
        again.fill(mkdata(case["last"]))
        direct.fill(mkdata(case["last"]))
        same(view(again), view(direct), "cleared after %s, compared with a histogram made directly" % ", ".join(names))
    return sorted(tags) if len(tags) > 1 and (len(st.m.view()) or any(x.m.view() for _, x, _ in past)) else []
