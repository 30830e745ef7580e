"""What the parser checks share: exact evaluation of a parsed expression, without sympy's own evaluation."""
import math
from fractions import Fraction as F
from . import core


class NoValue(Exception):
    pass


def root(v, n):
    """The real n-th root of a rational that has a rational one."""
    sign = 1
    if v < 0:
        if n % 2 == 0:
            raise NoValue("even root of %s" % v)
        v, sign = -v, -1
    out = []
    for k in (v.numerator, v.denominator):
        r = round(k ** (1.0 / n))
        while r ** n > k:
            r -= 1
        while (r + 1) ** n <= k:
            r += 1
        if r ** n != k:
            raise NoValue("no rational %s-th root of %s" % (n, v))
        out.append(r)
    return sign * F(*out)


def power(b, e):
    if e.denominator == 1:
        if b == 0 and e < 0:
            raise NoValue("0 to a negative power")
        if abs(e) > 3000:
            raise NoValue("huge power")
        return b ** int(e)
    r = root(b, e.denominator)
    return power(r, F(e.numerator))


def fact(v):
    if v.denominator != 1 or v < 0 or v > 2000:
        raise NoValue("%s!" % v)
    return F(math.factorial(int(v)))


def binom(a, b):
    if a.denominator != 1 or b.denominator != 1 or a < 0:
        raise NoValue("binomial(%s, %s)" % (a, b))
    return F(math.comb(int(a), int(b))) if b >= 0 else F(0)


def value(e, env):
    """Exact rational value of an expression tree; env gives symbols (by name), may give functions, and under # whole expressions."""
    s = core.sympy
    if isinstance(e, int):
        return F(e)
    if not isinstance(e, s.Basic):
        raise NoValue("not an expression: %r" % (e,))
    if "#" in env and e in env["#"]:
        return env["#"][e]
    if e.is_Rational:
        return F(int(e.p), int(e.q))
    if e.is_Symbol:
        if e.name not in env:
            raise NoValue("unexpected symbol %s" % e)
        return F(*env[e.name])
    name = type(e).__name__
    if name in env and not e.is_Symbol:
        return env[name](*[value(a, env) for a in e.args])
    a = [value(x, env) for x in e.args]
    if name == "Add":
        return sum(a, F(0))
    if name == "Mul":
        return math.prod(a, start=F(1))
    if name == "Pow":
        return power(*a)
    if name == "Mod":
        return a[0] - a[1] * math.floor(a[0] / a[1])
    if name == "Abs":
        return abs(a[0])
    if name in ("floor", "ceiling"):
        return F(math.floor(a[0]) if name == "floor" else math.ceil(a[0]))
    if name in ("Max", "Min"):
        return max(a) if name == "Max" else min(a)
    if name == "factorial":
        return fact(a[0])
    if name == "gamma":
        return fact(a[0] - 1)
    if name == "binomial":
        return binom(*a)
    if name == "UnevaluatedExpr":
        return a[0]
    raise NoValue("unexpected %s" % name)


def exact(e, values):
    try:
        return value(e, values), None
    except (NoValue, ZeroDivisionError, TypeError) as x:
        return None, str(x)


def parse(text, values=None):
    """latex2sympy, or the exception it raised."""
    try:
        return core.l2s.latex2sympy(text, values or {}), None
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:200].replace("\n", " / "))


def show(e):
    try:
        return core.sympy.srepr(e)[:300]
    except Exception:
        return repr(e)[:300]
