from gens.base import *
from gens.poly import Poly
from gens.exprs import Exprs, ATOM, clauses, weight, UNARY, QUALIFIED, BINARY

FUNCTIONS = UNARY + tuple(sorted(set(QUALIFIED) | set("math." + x for x in ("acos", "acosh", "asin", "asinh", "atan", "atanh", "ceil", "cos", "cosh", "degrees", "erf", "erfc", "exp", "expm1", "factorial", "floor", "gamma", "lgamma",
    "log", "log10", "log1p", "radians", "sin", "sinh", "sqrt", "tan", "tanh", "trunc")) | set("numpy." + x for x in ("absolute", "arccos", "arccosh", "arcsin", "arcsinh", "arctan", "arctanh", "ceil", "conjugate", "cos", "cosh",
    "deg2rad", "degrees", "exp", "exp2", "expm1", "floor", "log", "log10", "log1p", "log2", "rad2deg", "radians", "rint", "round", "sign", "sin", "sinh", "sqrt", "tan", "tanh", "trunc"))))
BINARY2 = ("numpy.arctan2", "numpy.copysign", "numpy.hypot", "numpy.logaddexp", "numpy.logaddexp2", "numpy.heaviside", "math.log", "numpy.arctan2", "min", "max")
KINDS = ("isnan", "isinf", "isfinite", "math.isnan", "math.isinf", "numpy.isnan", "numpy.isinf", "numpy.isfinite")

BAD = ("{0} if u > 0 else {1}", "u[{1}]", "[{0}]", "({0}, {1})", "u.real", "lambda: {0}", "({0}) << 1", "({0}) >> 1", "u @ v", "~u", "u & v", "u | v", "i & 1", "i | j", "sqrt(x=u)", "sqrt(u, out=v)",
       "foo({0})", "u is v", "(u > 0) + {0}", "sqrt(u > 0)", "{0} + (u < v)", "{0} * (p and q)", "f'{{u}}'", "[u for u in v]", "{{u: v}}", "u + {{u, v}}", "sqrt(u, v)", "hypot({0}, u, v)", "pow(u, 2, v)", "sqrt()", "max()",
       "where(u > 0)", "where(u > 0, {0})", "where(u > 0, {0}, {1}, v)", "arctan2({0})", "log(u, 2, v)", "np.sqrt({0})", "os.getcwd()", "sqrt({0})(u)", "math.foo({0})", "numpy.linalg.norm(u)", "abs(*u)", "u ** (v > 0)",
       "{0} +", "{0} u", "u = v", "import math", "", "u; v", "(y := u)", "max(u, v, key=abs)", "min(u, default=0)", "__import__('os')", "u + [1, 2]", "not_a_function(u, v)", "abs(u, v)", "exp(u, v)", "atan2(u, v)", "u.max()", "-[u]")


def gen(g):
    if g.below(12) == 11:
        ex = Exprs(g)
        t = g.choice(BAD)
        return {"bad": t.format(ex.text(1) if g.bool() else "u", ex.text(1) if g.bool() else "v"), "as": g.choice(("profile", "bin", "weight", "groupbin", "def", "intbin", "split"))}
    if g.below(25) == 24:
        n = g.int(1, 5)
        return {"kind": g.choice(KINDS), "x": [g.choice((NAN, INF, -INF, 0.0, 1.5, -2.0, NAN, INF)) for _ in range(n)], "arg": g.choice(("x", "x", "2*x", "x - 1", "x/4")), "not": g.bool(0.3)}
    shared = []
    exprs = []
    defs = {}
    if g.bool(0.3):
        defs["r"] = Exprs(g).text(2)
    if g.bool(0.15):
        defs["s"] = g.choice((2, 0.5, -3, 1.25, 0))
    leaves = ("u", "v", "i", "j") + tuple(defs) + tuple(defs)
    for _ in range(g.int(1, 4)):
        ex = Exprs(g, leaves, shared, bits=True)
        e = ex.num(g.pick((3, 1), (4, 2), (3, 3), (1, 4)))
        k = g.below(12)
        if k >= 8 and k < 10:
            # every function, with arguments in its domain
            args = ("u", "v", "u/4", "v/8 + 0.5", "abs(v) + 0.5", "abs(u) + 1.25", "i", "u*v", "j", "v - 0.25", "-u", "j + 1")
            if g.bool(0.7):
                exprs.append("%s(%s)" % (g.choice(FUNCTIONS), g.choice(args)))
            else:
                exprs.append("%s(%s, %s)" % (g.choice(BINARY + BINARY2), g.choice(args), g.choice(args)))
            continue
        if k >= 10:
            poly = Poly(g)
            t = poly.write(poly.make(g.choice((0, 1, 1, 2))))
            e = (t,) + tuple(e[1:])
            if weight(t) <= 150:
                exprs.append(t)
            continue
        if weight(e[0], defs) > 150:
            e = ex.leaf()
        shared.append(e)
        exprs.append(e[0])
    exprs = exprs or ["u"]
    logic = Exprs(g, leaves, shared, functions=False).logic(2)[0] if g.bool(0.3) else None
    if logic is not None and weight(logic, defs) > 300 or logic is not None and clauses(logic) > 200:
        logic = "u > v"
    n = g.int(1, 5)
    cols = {"u": [g.quarter() for _ in range(n)], "v": [g.quarter() for _ in range(n)], "i": [g.int(-4, 6) for _ in range(n)], "j": [g.int(0, 5) for _ in range(n)],
            "p": [g.bool() for _ in range(n)], "q": [g.bool() for _ in range(n)]}
    return {"exprs": exprs, "defs": defs, "logic": logic, "data": {"cols": cols}, "w": g.bool(0.5), "edges": sorted(set(g.quarter(-20, 20) for _ in range(g.int(1, 4)))), "twin": g.bool(0.5)}
