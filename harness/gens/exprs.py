"""Random numeric and logical expressions as source text."""

ADD, MUL, UN, POW, ATOM = 1, 2, 3, 4, 5
CONSTS = ("0", "1", "2", "3", "4", "0.5", "0.25", "1.5", "-1", "-2", "10", "2.0", "1e2", "-0.5", "8")

# name -> (spellings, number of arguments, kind of argument)
UNARY = ("abs", "fabs", "sqrt", "exp", "log", "log10", "log2", "log1p", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh",
         "floor", "ceil", "trunc", "rint", "round", "sign", "deg2rad", "rad2deg", "exp2", "expm1", "erf", "erfc", "gamma", "lgamma", "factorial", "heaviside", "conj")
QUALIFIED = ("math.sqrt", "numpy.sqrt", "math.sin", "numpy.cos", "math.atan", "math.acos", "math.exp", "numpy.absolute", "math.floor", "math.ceil", "numpy.log10", "math.log", "math.degrees", "math.radians",
             "numpy.sign", "numpy.degrees", "numpy.radians", "math.tanh", "numpy.arctan", "math.log1p", "math.expm1", "numpy.exp2", "math.asinh", "numpy.rint", "numpy.trunc", "math.erf")
BINARY = ("arctan2", "hypot", "copysign", "pow", "mod", "log", "fmin", "fmax", "heaviside", "logaddexp", "logaddexp2", "math.atan2", "math.hypot", "math.pow", "numpy.maximum", "numpy.minimum", "math.copysign", "numpy.power", "numpy.remainder")


class Exprs(object):
    def __init__(self, g, leaves=("u", "v", "i", "j"), shared=(), discontinuous=True, functions=True, bits=False):
        self.g = g
        self.bits = bits
        self.leaves = leaves
        self.shared = list(shared)
        self.discontinuous = discontinuous
        self.functions = functions

    def par(self, tp, need):
        t, p = tp
        if p < need or self.g.bool(0.08):
            return "(" + t + ")"
        return t

    def leaf(self):
        g = self.g
        k = g.below(20)
        if self.bits and g.bool(0.06):
            return g.choice(("(6 | 3)", "(6 ^ 3)", "(5 & -2)", "(-1 | 4)", "(3 ^ -6)", "(1 | 2 & 7)", "(~5)", "(~(2 | 1))", "(i ^ j)", "(i ^ 3)", "((i + 1) ^ j)", "(j ^ i*2)", "(j ^ (4 | 1))", "(5 ^ i)")), ATOM
        if k < 12:
            return g.choice(self.leaves), ATOM
        if k < 18:
            c = g.choice(CONSTS)
            return c, (UN if c.startswith("-") else ATOM)
        if k == 18 and self.functions:
            return g.choice(("pi", "e")), ATOM
        return g.choice(self.leaves), ATOM

    def num(self, depth):
        """(text, precedence)"""
        g = self.g
        if self.shared and g.bool(0.25):
            return g.choice(self.shared)
        if depth <= 0:
            return self.leaf()
        k = g.below(100)
        if k < 10:
            return self.leaf()
        if k < 35:
            op = g.choice(("+", "-"))
            a, b = self.num(depth - 1), self.num(depth - 1)
            return "%s %s %s" % (self.par(a, ADD), op, self.par(b, MUL if op == "-" else g.choice((ADD, MUL)))), ADD
        if k < 55:
            a, b = self.num(depth - 1), self.num(depth - 1)
            return "%s*%s" % (self.par(a, MUL), self.par(b, UN)), MUL
        if k < 65:
            a, b = self.num(depth - 1), self.num(depth - 1)
            return "%s/%s" % (self.par(a, MUL), self.par(b, UN)), MUL
        if k < 70:
            return "-" + self.par(self.num(depth - 1), UN), UN
        if k < 72:
            return "+" + self.par(self.num(depth - 1), UN), UN
        if k < 79:
            a = self.num(depth - 1)
            n = g.choice(("2", "3", "4", "1", "0", "-1", "-2", "-3", "-4", "5", "0.5", "2.0", "1.5", "6"))
            return "%s**%s" % (self.par(a, ATOM), n), POW
        if k < 80:
            return "%s**%s" % (g.choice(("2", "0.5", "3", "u", "v")), self.par((g.choice(self.leaves), ATOM), UN)), POW
        if k < 84:
            if not self.discontinuous:
                return self.leaf()
            a, b = self.num(depth - 1), self.num(depth - 1)
            return "%s %s %s" % (self.par(a, MUL), g.choice(("//", "%")), self.par(b, UN)), MUL
        if not self.functions:
            return self.leaf()
        if k < 92:
            f = g.choice(UNARY) if g.bool(0.8) else g.choice(QUALIFIED)
            if not self.discontinuous and f in ("floor", "ceil", "trunc", "rint", "round", "sign", "heaviside", "factorial", "math.floor", "math.ceil", "numpy.sign", "numpy.rint", "numpy.trunc"):
                f = "abs"
            return "%s(%s)" % (f, self.num(depth - 1)[0]), ATOM
        if k < 95:
            f = g.choice(BINARY)
            return "%s(%s, %s)" % (f, self.num(depth - 1)[0], self.num(depth - 1)[0]), ATOM
        if k < 98:
            f = g.choice(("min", "max", "fmin", "fmax"))
            return "%s(%s)" % (f, ", ".join(self.num(depth - 2)[0] for _ in range(g.int(1, 4)))), ATOM
        return "where(%s, %s, %s)" % (self.logic(1)[0], self.num(depth - 1)[0], self.num(depth - 1)[0]), ATOM

    def text(self, depth):
        return self.num(depth)[0]

    # ------------------------------------------------------------ logic; precedences: or 1, and 2, not 3, comparison 4, atom 5

    def comparison(self, depth=1):
        g = self.g
        k = g.below(20)
        if k < 11:
            return "%s %s %s" % (self.par(self.num(depth), ADD), g.choice(("<", "<=", ">", ">=", "==", "!=")), self.par(self.num(depth), ADD)), 4
        if k < 13:
            return "%s %s %s %s %s" % (self.par(self.num(0), ADD), g.choice(("<", "<=", ">", "==", "!=")), self.par(self.num(depth), ADD), g.choice(("<", "<=", ">=", "!=")), self.par(self.num(0), ADD)), 4
        if k < 15:
            return "i %s {%s}" % (g.choice(("in", "not in")), ", ".join(str(x) for x in g.sample(range(-2, 5), g.int(1, 4)))), 4
        if k == 15:
            return "u %s {%s}" % (g.choice(("in", "not in")), ", ".join(str(x / 2.0) for x in g.sample(range(-2, 5), g.int(1, 4)))), 4
        return g.choice(("p", "q")), 5

    def logic(self, depth, comparison=None):
        g = self.g
        comparison = comparison or self.comparison
        if depth <= 0 or g.bool(0.2):
            return comparison()
        k = g.below(10)
        if k < 3:
            return "not " + self.par(self.logic(depth - 1, comparison), 3), 3
        n = g.pick((5, 2), (2, 3))
        op, prec = ("and", 2) if k < 7 else ("or", 1)
        return (" %s " % op).join(self.par(self.logic(depth - 1, comparison), prec + 1) for _ in range(n)), prec


def weight(text, defs=()):
    """How many terms symbolic expansion of the expression can produce (all sub-expressions counted)."""
    import ast
    total = [0]

    def rec(node):
        if isinstance(node, ast.Name):
            n = rec(ast.parse(defs[node.id], mode="eval").body) if node.id in defs and isinstance(defs[node.id], str) else 1
        elif isinstance(node, ast.BinOp):
            a, b = rec(node.left), rec(node.right)
            if isinstance(node.op, (ast.Add, ast.Sub)):
                n = a + b
            elif isinstance(node.op, (ast.Mult, ast.Div)):
                n = a * b
            elif isinstance(node.op, ast.Pow):
                n = a * 4 + b
            else:
                n = 1
        elif isinstance(node, ast.UnaryOp):
            n = rec(node.operand)
        else:
            for x in ast.iter_child_nodes(node):
                rec(x)
            n = 1
        total[0] += n
        return n
    rec(ast.parse(text, mode="eval").body)
    return total[0]


def clauses(text):
    """Upper bound on the clauses of any disjunctive normal form made on the way to that of the expression."""
    import ast
    worst = [1]

    def rec(node):
        if isinstance(node, ast.BoolOp):
            parts = [rec(x) for x in node.values]
            if isinstance(node.op, ast.And):
                c, l = 1, 0
                for a, b in parts:
                    c, l = c * a, l + b
            else:
                c, l = sum(a for a, _ in parts), max(b for _, b in parts)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            a, b = rec(node.operand)
            c, l = b ** min(a, 40), a
        elif isinstance(node, ast.Compare) and len(node.ops) > 1:
            c, l = 1, len(node.ops)
        else:
            for x in ast.iter_child_nodes(node):
                rec(x)
            c, l = 1, 1
        worst[0] = max(worst[0], c)
        return c, l
    rec(ast.parse(text, mode="eval").body)
    return worst[0]
