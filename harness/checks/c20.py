from fractions import Fraction as F
from .. import core, l2s
from ..core import Check, thin
from ..tlc import Model

ENV = {"x": (3, 1), "y": (-2, 1), "k": (5, 2)}


class C(Check):
    id = "C20"
    technique = "TLA+ stack machine writing matrix expressions and elementary operations and computing them exactly over the rationals (TLC exhaustive and simulated); texts parsed and evaluated by the real parser and compared entry by entry"
    level_note = "One operation over twelve named matrices and every step of two elementary operations exhaustively (replayed sampled), nested expressions over random matrices by simulation; letters are given one value each; rank, reduction and inverse only of matrices of numbers."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Involutive", "SameDet", "Reduced"]
        one = dict(Leafs='{"A", "B", "C", "R", "K", "X", "W", "H", "O", "Z", "Y", "G"}', MaxOps=0, MaxLeaves=1, Mode='"one"')
        two = dict(Leafs='{"A", "B", "R", "X"}', MaxOps=1, MaxLeaves=2, Mode='"one"')
        steps = dict(Leafs='{"A", "X", "W"}', MaxOps=3 if q else 4, MaxLeaves=1, Mode='"steps"')
        deep = dict(Leafs="{}", MaxOps=6, MaxLeaves=6, Mode='"deep"')
        return [Model("MatExprs", one, invs=inv, label="MatExprs one operation"), Model("MatExprs", two, invs=inv, label="MatExprs two operands", timeout=2000),
                Model("MatExprs", steps, invs=["Involutive"], label="MatExprs elementary operations", timeout=2000),
                Model("MatExprs", deep, mode="sim", invs=inv, num=600 if q else 20000, depth=50, label="MatExprs deep", timeout=3000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        g = lambda v: (v["op"], v["why"])
        caps = [40, 40, 90, 60] if q else [10 ** 6, 2000, 5000, 4000]
        return [v for r, c in zip(results, caps) for v in thin(r.vectors, c, seed, group=g)]

    def done(self, v):
        e, err = l2s.parse(v["a"])
        if err:
            return None, "latex2sympy(%r) raised %s" % (v["a"], err)
        try:
            return [x.doit() for x in e] if isinstance(e, list) else e.doit(), None
        except Exception as x:
            return None, "the parse of %r, %s, cannot be evaluated: %r" % (v["a"], l2s.show(e), x)

    def entries(self, d):
        """Rows of exact values of an evaluated matrix, or why there are none."""
        if isinstance(d, core.sympy.MatrixExpr):
            d = d.as_explicit()
        if not isinstance(d, core.sympy.MatrixBase):
            return None, "not a matrix: " + l2s.show(d)
        rows = []
        for i in range(d.rows):
            row = []
            for j in range(d.cols):
                x, err = l2s.exact(d[i, j], ENV)
                if err:
                    return None, "%s in entry %d, %d" % (err, i + 1, j + 1)
                row.append(x)
            rows.append(row)
        return rows, None

    def want(self, v):
        return [[F(*q) for q in row] for row in v["m"]]

    def differ(self, v, d, got, err, want):
        if err or got != want:
            f = lambda m: [[str(x) for x in r] for r in m]
            return "latex2sympy(%r).doit() = %s, of value %s, specified %s" % (v["a"], l2s.show(d), err or f(got), f(want))

    def op_matrix(self, v):
        d, bad = self.done(v)
        if bad:
            return bad
        return self.differ(v, d, *self.entries(d), self.want(v))

    def op_scalar(self, v):
        d, bad = self.done(v)
        if bad:
            return bad
        got, err = l2s.exact(d, ENV)
        return self.differ(v, d, [[got]], err, self.want(v))

    def op_norm(self, v):
        d, bad = self.done(v)
        if bad:
            return bad
        if not (getattr(d, "is_nonnegative", False) or getattr(d, "is_number", False) and d >= 0):
            return "latex2sympy(%r).doit() = %s is not a number from 0 up" % (v["a"], l2s.show(d))
        got, err = l2s.exact(core.sympy.expand(d ** 2), ENV)
        return self.differ(v, d, [[got]], err, self.want(v))

    def op_list(self, v):
        d, bad = self.done(v)
        if bad:
            return bad
        if not isinstance(d, list):
            return "latex2sympy(%r) = %s is not a list" % (v["a"], l2s.show(d))
        rows = []
        for x in d:
            r, err = self.entries(x)
            if err:
                return self.differ(v, d, None, err, self.want(v))
            if v["cols"]:
                r = [list(c) for c in zip(*r)]
            if len(r) != 1:
                return "latex2sympy(%r) = %s does not consist of single %s" % (v["a"], l2s.show(d), "columns" if v["cols"] else "rows")
            rows += r
        return self.differ(v, d, rows, None, self.want(v))


CHECK = C()
