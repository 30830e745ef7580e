from fractions import Fraction as F
from .. import core, l2s
from ..core import Check, thin
from ..tlc import Model


class C(Check):
    id = "C19"
    technique = "TLA+ stack machine writing calculus notation over polynomials and computing it on their coefficients (TLC exhaustive and simulated); texts parsed by the real parser, evaluated and compared exactly"
    level_note = "One calculus operator over every small polynomial in every listed form exhaustively (replayed sampled), nested and combined ones by simulation; several integrals side by side only in brackets (known finding)."
    env = {"x": (3, 1), "t": (2, 1), "n": (4, 1), "theta": (5, 3), "x_1": (4, 1), "k": (5, 1), "R": (-2, 1), "y_{12}": (-1, 1)}

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Trimmed", "Fundamental", "Additive"]
        one = dict(LeafTexts="{}", VarNames='{"x", "theta", "x_1"}' if q else '{"x", "t", "theta", "x_1", "y_12"}', MaxOps=0, MaxCalc=1, MaxLeaves=1, Exhaustive=True)
        two = dict(LeafTexts='{"x^2", "x", "t", "(t+1)", "2", "2x"}', VarNames='{"x", "t"}', MaxOps=0, MaxCalc=2, MaxLeaves=1, Exhaustive=True)
        ctx = dict(LeafTexts='{"x", "x^2", "3"}', VarNames='{"x"}', MaxOps=1, MaxCalc=1, MaxLeaves=2, Exhaustive=True)
        deep = dict(LeafTexts="{}", VarNames='{"x", "t", "n", "theta", "x_1", "k", "R", "y_12"}', MaxOps=5, MaxCalc=4, MaxLeaves=5, Exhaustive=False)
        return [Model("Calculus", one, invs=inv, label="Calculus one operator"), Model("Calculus", two, invs=inv, label="Calculus nested", timeout=2000),
                Model("Calculus", ctx, invs=inv, label="Calculus in an operation", timeout=2000), Model("Calculus", deep, mode="sim", invs=inv, num=700 if q else 20000, depth=45, label="Calculus deep", timeout=3000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        one = lambda v: v["op"]
        marked = [v for v in results[0].vectors if v["why"] == "0"]
        rest = [v for v in results[0].vectors if v["why"] != "0"]
        return marked + thin(rest, 500 if q else 5000, seed, group=one) + thin(results[1].vectors, 300 if q else 20000, seed, group=one) + thin(results[2].vectors, 250 if q else 20000, seed, group=one) + thin(results[3].vectors, 160 if q else 10000, seed, group=one)

    def done(self, v):
        e, err = l2s.parse(v["a"])
        if err:
            return None, "latex2sympy(%r) raised %s" % (v["a"], err)
        try:
            return (e, e.doit()), None
        except Exception as x:
            return None, "the parse of %r, %s, cannot be evaluated: %r" % (v["a"], l2s.show(e), x)

    def op_value(self, v):
        r, bad = self.done(v)
        if bad:
            return bad
        want = F(v["n"], v["d"])
        got, err = l2s.exact(r[1], self.env)
        if err or got != want:
            return "latex2sympy(%r) = %s, of value %s, specified %s" % (v["a"], l2s.show(r[0]), err or got, want)

    def op_anti(self, v):
        r, bad = self.done(v)
        if bad:
            return bad
        name = "y_{12}" if v["v"] == "y_12" else v["v"]
        want = F(v["n"], v["d"])
        hi, err = l2s.exact(r[1], dict(self.env, **{name: (2, 1)}))
        lo, err2 = l2s.exact(r[1], dict(self.env, **{name: (-1, 1)}))
        if err or err2 or hi - lo != want:
            return "latex2sympy(%r) = %s, increasing from -1 to 2 by %s, specified %s" % (v["a"], l2s.show(r[0]), err or err2 or hi - lo, want)


CHECK = C()
