from fractions import Fraction as F
from .. import core, l2s
from ..core import Check, thin
from ..tlc import Model

IDS = dict(sin=1, cos=2, tan=3, csc=4, sec=5, cot=6, asin=7, acos=8, atan=9, acsc=10, asec=11, acot=12, sinh=13, cosh=14, tanh=15, asinh=16, acosh=17, atanh=18)


def h(f, a):
    n = (f * 31 + a.numerator * 17 + a.denominator * 7) % 97 - 48
    return F(n or 49, 3)


def exp(a):
    return h(19, a) if a else F(1)


def log(a, b=None):
    la = F(1) if a == exp(F(1)) else h(21, a)
    return la if b is None else la / log(b)


def pow_(a, b):
    return l2s.power(a, b) if b.denominator == 1 else h(22, 3 * a + b)


class C(Check):
    id = "C18"
    technique = "TLA+ stack machine writing function applications in every form, with functions interpreted arbitrarily (TLC exhaustive and simulated); texts parsed by the real parser and its tree given the same interpretation"
    level_note = "Every function in every form (power, base, parentheses, braces, bare argument) within one further operation exhaustively (replayed sampled), up to 4 applications and 6 operations by simulation."
    env = dict({"x": (3, 1), "y": (-2, 1), "a": (1, 2), "alpha": (5, 3), "x_1": (4, 1)}, exp=exp, Exp1=lambda: exp(F(1)), log=log, Pow=pow_, **{n: (lambda a, i=i: h(i, a)) for n, i in IDS.items()})

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Reduced", "OpenEnds"]
        one = dict(LeafTexts="{}" if not q else '{"x", "2", "y", "e"}', MaxOps=0, MaxUnary=0, MaxApps=1, MaxLeaves=1, Exhaustive=True)
        ctx = dict(LeafTexts='{"x", "y", "2"}' if not q else '{"x", "y"}', MaxOps=1, MaxUnary=0, MaxApps=1, MaxLeaves=2, Exhaustive=True)
        deep = dict(LeafTexts="{}", MaxOps=5, MaxUnary=2, MaxApps=4, MaxLeaves=6, Exhaustive=False)
        return [Model("Funcs", one, invs=inv, label="Funcs one application"), Model("Funcs", ctx, invs=inv, label="Funcs in an operation", timeout=2000),
                Model("Funcs", deep, mode="sim", invs=inv, num=500 if q else 20000, depth=40, label="Funcs deep", timeout=3000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        one = lambda v: ""
        fixed = [v for v in results[0].vectors if v["why"] == "0+0"]
        return fixed + thin(results[0].vectors, 500 if q else 5000, seed, group=one) + thin(results[1].vectors, 700 if q else 40000, seed, group=one) + thin(results[2].vectors, 160 if q else 20000, seed, group=one)

    def op_value(self, v):
        e, err = l2s.parse(v["a"])
        want = F(v["n"], v["d"])
        if err:
            return "latex2sympy(%r) raised %s" % (v["a"], err)
        got, err = l2s.exact(e, self.env)
        if err or got != want:
            return "latex2sympy(%r) = %s is not the application written (%s, specified %s)" % (v["a"], l2s.show(e), err or got, want)


CHECK = C()
