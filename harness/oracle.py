"""Ordinary evaluation of an expression for one record, straight from Python's own syntax tree,
with a bound on how far rounding (in whatever order the sums and products are done) can move the result."""

import ast
import math

INF = float("inf")
EPS = 4e-16
STRICT = False       # both branches of where() must be computable


class Skip(Exception):
    """Nothing is claimed about this record: ordinary evaluation fails, is not finite, or rounding decides."""


_trees = {}


def tree(text):
    t = _trees.get(text)
    if t is None:
        if len(_trees) > 5000:
            _trees.clear()
        t = _trees[text] = ast.parse(text.strip(), mode="eval").body
    return t


def pow2(x):
    return x != 0 and abs(math.frexp(x)[0]) == 0.5


class V(object):
    """value, magnitude of what was added up to get it, error bound"""
    __slots__ = ("x", "m", "d")

    def __init__(self, x, m=None, d=0.0):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, complex):
            raise Skip()
        try:
            f = float(x)
        except OverflowError:
            raise Skip()
        if f != f or abs(f) > 1e12:
            raise Skip()
        self.x = x
        self.m = (abs(f) if m is None else max(abs(f), m)) + d
        self.d = d
        if not (self.m < 1e13) or not (d < 1e-3 * max(1.0, abs(f))):
            raise Skip()


def exact(x, scale):
    """Sums and products of short dyadic numbers are exact whatever the order."""
    return scale < 2.0 ** 40 and x * 2.0 ** 12 == math.floor(x * 2.0 ** 12)


def fn(name):
    f = {"abs": abs, "absolute": abs, "fabs": abs, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "arcsinh": math.asinh, "arccosh": math.acosh, "arctanh": math.atanh,
         "rint": round, "round": round, "sign": lambda x: (x > 0) - (x < 0), "deg2rad": math.radians, "rad2deg": math.degrees, "exp2": lambda x: 2.0 ** x, "log2": lambda x: math.log(x, 2) if x <= 0 else math.log2(x),
         "heaviside": lambda x: 0.0 if x < 0 else 1.0 if x > 0 else 0.5, "conj": lambda x: x}.get(name)
    return f if f is not None else getattr(math, name)


STEPS = set(["floor", "ceil", "trunc", "rint", "round", "sign", "heaviside", "factorial"])


def unary(name, a):
    f = fn(name)
    if name == "factorial":
        if a.x != round(a.x) or a.x < 0 or a.x > 10 or a.d:
            raise Skip()
        y = float(math.factorial(int(a.x)))
        return V(y, d=1e-6 * y + 1e-6)
    if name in ("gamma", "lgamma"):
        if a.x < 0.5 or a.x > 10:
            raise Skip()
    if name in ("arcsin", "arccos", "arctanh", "arccosh") and a.d and abs(abs(a.x) - 1) < 1e-6:
        raise Skip()
    if name == "tan" and abs(math.cos(a.x)) < 1e-6:
        raise Skip()
    y = f(a.x)
    if name in STEPS:
        if a.d:
            lo, hi = f(a.x - 4 * a.d - 1e-12), f(a.x + 4 * a.d + 1e-12)
            if lo != hi:
                raise Skip()
        return V(y)
    d = EPS * abs(y)
    if a.d:
        for s in (-1, 1):
            d = max(d, 2 * abs(f(a.x + s * a.d) - y))
    if name in ("erf", "erfc"):
        d += 3e-7
    elif name in ("gamma", "lgamma"):
        d += 1e-6 * max(1.0, abs(y))
    elif name in ("abs", "absolute", "fabs", "conj"):
        d = a.d
    elif name in ("sin", "cos"):
        d += 1e-15
    return V(y, d=d)


def compare(op, a, b):
    close = abs(a.x - b.x) <= 4 * (a.d + b.d) + (1e-12 * max(a.m, b.m) if a.d or b.d else 0.0)
    if close and (a.d or b.d):
        raise Skip()
    x, y = a.x, b.x
    return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y, ast.Eq: x == y, ast.NotEq: x != y}[type(op)]


def power(a, b):
    if a.d and (a.x <= 0 or b.x < 0) and abs(a.x) < 1e-6:
        raise Skip()
    if max(2.0, a.m) ** abs(float(b.x)) > 1e12:
        raise Skip()
    if b.d and a.x - a.d <= 0:
        raise Skip()
    if isinstance(a.x, int) and isinstance(b.x, int) and b.x < 0:
        y = float(a.x) ** b.x
    else:
        y = a.x ** b.x
    v = V(y)      # complex, overflow
    d = 16 * EPS * abs(y)
    if a.d == 0 and b.d == 0 and b.x == int(b.x) and b.x >= 0 and exact(float(y), abs(float(y)) + a.m ** max(1.0, float(b.x))):
        d = 0.0
    m = a.m ** b.x if 1 <= b.x < 5 and b.x == int(b.x) else abs(y)
    if a.d:
        if b.x != int(b.x) and a.x - a.d < 0:
            raise Skip()
        for s in (-1, 1):
            d = max(d, 2 * abs((a.x + s * a.d) ** b.x - y))
        d += 8 * EPS * m
    if b.d:
        for s in (-1, 1):
            d = max(d, 2 * abs(float(a.x) ** (b.x + s * b.d) - y) + d)
    return V(y, m, d)


def binop(op, a, b):
    if isinstance(op, (ast.Add, ast.Sub)):
        y = a.x + b.x if isinstance(op, ast.Add) else a.x - b.x
        m = a.m + b.m
        d = a.d + b.d
        if d or not exact(float(y), m):
            d += 2 * EPS * m
        return V(y, m, d)
    if isinstance(op, ast.Mult):
        y = a.x * b.x
        m = a.m * b.m
        d = a.d * b.m + b.d * a.m + a.d * b.d
        if d or not exact(float(y), m):
            d += 4 * EPS * m
        return V(y, m, d)
    if isinstance(op, ast.Div):
        if b.d and abs(b.x) <= 10 * b.d:
            raise Skip()
        y = float(a.x) / float(b.x)
        m = a.m / abs(b.x) * (b.m / abs(b.x))
        d = a.d / abs(b.x) + b.d * abs(y) / abs(b.x) * 2
        if d or not pow2(b.x) or not exact(y, m):
            d += 4 * EPS * m
        return V(y, m, d)
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        if b.x == 0 or (b.d and abs(b.x) <= 10 * b.d):
            raise Skip()
        q = a.x / b.x
        if a.d or b.d or abs(a.x) > 1e9 or not exact(float(a.x), a.m) or not exact(float(b.x), b.m):
            slack = 8 * (a.d / abs(b.x) + b.d * abs(q) / abs(b.x)) + 1e-9 * max(1.0, abs(q))
            if abs(q - round(q)) <= slack:
                raise Skip()
        y = a.x // b.x if isinstance(op, ast.FloorDiv) else a.x % b.x
        if isinstance(op, ast.FloorDiv):
            return V(y)
        return V(y, d=a.d + b.d * (abs(q) + 1) + (4 * EPS * (a.m + b.m * (abs(q) + 1)) if a.d or b.d else 0.0))
    if isinstance(op, ast.Pow):
        return power(a, b)
    if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)) and isinstance(a.x, int) and isinstance(b.x, int):
        return V(a.x | b.x if isinstance(op, ast.BitOr) else a.x & b.x if isinstance(op, ast.BitAnd) else a.x ^ b.x)
    raise AssertionError(op)


def pick(values, best):
    y = best(v.x for v in values)
    return V(y, max(v.m for v in values), max(v.d for v in values))


def evaluate(node, rec, defs):
    """V of a numeric expression."""
    if isinstance(node, str):
        node = tree(node)
    if isinstance(node, ast.Num) and not isinstance(node.n, bool):
        return V(node.n)
    if isinstance(node, ast.Name):
        if node.id in defs:
            x = defs[node.id]
            return evaluate(x, rec, {}) if isinstance(x, str) else V(x)
        if node.id in rec:
            return V(rec[node.id])
        if node.id in ("pi", "e"):
            x = getattr(math, node.id)
            return V(x, d=EPS * x)
        raise AssertionError(node.id)
    if isinstance(node, ast.UnaryOp):
        a = evaluate(node.operand, rec, defs)
        if isinstance(node.op, ast.Invert):
            return V(~a.x)
        return V(-a.x, a.m, a.d) if isinstance(node.op, ast.USub) else a
    if isinstance(node, ast.BinOp):
        a, b = evaluate(node.left, rec, defs), evaluate(node.right, rec, defs)
        return guarded(binop, node.op, a, b)
    if isinstance(node, ast.Call):
        name = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id
        name = {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh", "degrees": "rad2deg", "radians": "deg2rad", "maximum": "max", "minimum": "min",
                "fmax": "max", "fmin": "min", "power": "pow", "remainder": "mod", "conjugate": "conj"}.get(name, name)
        if name == "where":
            if STRICT:
                for x in node.args[1:]:
                    evaluate(x, rec, defs)
            return evaluate(node.args[1] if truth(node.args[0], rec, defs) else node.args[2], rec, defs)
        args = [evaluate(x, rec, defs) for x in node.args]
        return guarded(call, name, args)
    raise AssertionError(ast.dump(node))


def guarded(fcn, *args):
    try:
        return fcn(*args)
    except (ZeroDivisionError, OverflowError, ValueError, TypeError):
        raise Skip()


def call(name, args):
    if name in ("min", "max"):
        return pick(args, min if name == "min" else max)
    if len(args) == 1:
        return unary(name, args[0])
    a, b = args
    if name == "mod":
        return binop(ast.Mod(), a, b)
    if name == "pow":
        return power(a, b)
    if name == "log":
        la, lb = unary("log", a), unary("log", b)
        return binop(ast.Div(), la, lb)
    if name == "heaviside":
        return unary("sign", a) if False else (V(0.0) if neg(a) else V(1.0) if pos(a) else b)
    if name == "copysign":
        if b.x == 0 or abs(b.x) <= 4 * b.d:
            raise Skip()
        return V(math.copysign(a.x, b.x), a.m, a.d)
    if name == "arctan2":
        if a.x == 0 or abs(a.x) <= 4 * a.d or (b.x == 0 and b.d):
            raise Skip()
        y = math.atan2(a.x, b.x)
        r2 = float(a.x) ** 2 + float(b.x) ** 2
        return V(y, d=2 * (a.d + b.d) / math.sqrt(r2) + EPS * 4)
    if name == "hypot":
        y = math.hypot(a.x, b.x)
        return V(y, d=a.d + b.d + 4 * EPS * y)
    if name in ("logaddexp", "logaddexp2"):
        base = math.e if name == "logaddexp" else 2.0
        if abs(a.x) > 300 or abs(b.x) > 300:
            raise Skip()
        y = math.log(base ** a.x + base ** b.x) / math.log(base)
        return V(y, d=a.d + b.d + 1e-13 * max(1.0, abs(y), abs(a.x), abs(b.x)))
    raise AssertionError(name)


def neg(a):
    if a.d and abs(a.x) <= 4 * a.d + 1e-12:
        raise Skip()
    return a.x < 0


def pos(a):
    return a.x > 0


def truth(node, rec, defs):
    """bool of a logical expression."""
    if isinstance(node, str):
        node = tree(node)
    if isinstance(node, ast.BoolOp):
        # no short circuit in what decides whether the record counts
        parts = [truth(x, rec, defs) for x in node.values]
        return all(parts) if isinstance(node.op, ast.And) else any(parts)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        return not truth(node.operand, rec, defs)
    if isinstance(node, ast.Compare):
        out = True
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            if isinstance(op, (ast.In, ast.NotIn)):
                a = text_or_num(left, rec, defs)
                s = [text_or_num(x, rec, defs) for x in right.elts] if isinstance(right, ast.Set) else []
                res = any(equal(a, x) for x in s)
                out = out and (res if isinstance(op, ast.In) else not res)
            else:
                a, b = text_or_num(left, rec, defs), text_or_num(right, rec, defs)
                if isinstance(a, str) or isinstance(b, str):
                    res = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[type(op)]()
                else:
                    res = compare(op, a, b)
                out = out and res
            left = right
        return out
    if isinstance(node, ast.Name):
        if node.id in defs:
            return truth(defs[node.id], rec, {})
        return bool(rec[node.id])
    if isinstance(node, getattr(ast, "NameConstant", ())) or (isinstance(node, ast.Constant) and isinstance(node.value, bool)):
        return bool(node.value)
    raise AssertionError(ast.dump(node))


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return compare(ast.Eq(), a, b)


def text_or_num(node, rec, defs):
    if isinstance(node, ast.Str):
        return node.s
    if isinstance(node, ast.Name) and isinstance(rec.get(node.id), str):
        return rec[node.id]
    return evaluate(node, rec, defs)
