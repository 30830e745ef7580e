from fractions import Fraction as F
from .. import core, l2s
from ..core import Check, thin
from ..tlc import Model


class C(Check):
    id = "C24"
    technique = "TLA+ specification of relations and lists with the kind and exact side values of every element (TLC exhaustive for one relation and for lists of two, simulated for longer lists); texts parsed by the real parser"
    level_note = "Every relation sign between every two of 28 sides; lists of two in every form exhaustively for expressions (replayed sampled), lists of up to 5 (thorough: 8) by simulation. Chains of relations, lists in lists and elements of three digits (read as thousands) are excluded."
    env = {"x": (3, 1), "y": (-2, 1), "alpha": (5, 3), "x_1": (4, 1)}

    def models(self, tier, seed):
        q = tier == "quick"
        return [Model("Lists", dict(Mode='"rel"', MaxLen=1), invs=["Sides"], label="Lists relations", timeout=2000),
                Model("Lists", dict(Mode='"two"', MaxLen=2), invs=["Sides"], label="Lists of two", timeout=2000),
                Model("Lists", dict(Mode='"deep"', MaxLen=5 if q else 8), mode="sim", invs=["Sides"], num=250 if q else 15000, depth=20, label="Lists longer", timeout=3000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        g = lambda v: (v["items"][0]["k"], v["items"][0]["v"][0] == v["items"][0]["v"][-1])
        f = lambda v: (v["f"], v["s"])
        return thin(results[0].vectors, 110 if q else 5000, seed, group=g) + thin(results[1].vectors, 25 if q else 1000, seed, group=f) + thin(results[2].vectors, 30 if q else 1500, seed, group=f)

    def element(self, e, item):
        s = core.sympy
        kinds = {"eq": s.Eq, "lt": s.StrictLessThan, "le": s.LessThan, "gt": s.StrictGreaterThan, "ge": s.GreaterThan, "ne": s.Ne}
        if item["k"] == "expr":
            if isinstance(e, s.core.relational.Relational):
                return "a relation"
            parts = [e]
        else:
            if type(e) is not kinds[item["k"]]:
                return "no relation %s" % item["k"]
            parts = [e.lhs, e.rhs]
        for p, w in zip(parts, item["v"]):
            got, err = l2s.exact(p, self.env)
            if err or got != F(*w):
                return "%s has the value %s" % (l2s.show(p), err or got)

    def op_rel(self, v):
        e, err = l2s.parse(v["a"])
        what = ", ".join("%s %s" % (i["k"], [str(F(*x)) for x in i["v"]]) for i in v["items"])
        if err:
            return "latex2sympy(%r) raised %s" % (v["a"], err)
        es = list(e) if isinstance(e, (list, tuple)) else None
        if (es is not None) is not v["list"] or (v["list"] and len(es) != len(v["items"])):
            return "latex2sympy(%r) = %r, specified %s of %s" % (v["a"], e, "a list" if v["list"] else "no list", what)
        for x, item in zip(es if v["list"] else [e], v["items"]):
            bad = self.element(x, item)
            if bad:
                return "latex2sympy(%r) = %r: %s, specified %s" % (v["a"], e, bad, what)


CHECK = C()
