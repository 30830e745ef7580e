import re
from fractions import Fraction
from .. import core, l2s
from ..core import Check, cover, thin
from ..tlc import Model


class C(Check):
    id = "C16"
    technique = "TLA+ stack machine writing arithmetic expressions alongside their exact rational value (TLC exhaustive and simulated); texts parsed by the real parser and evaluated exactly"
    level_note = "Every combination of one operation over 35 leaves and of up to three operations over fixed leaves exhaustively (every operator with every leaf and every tree of operators replayed); up to 9 operations by simulation with 240 writing styles. Unbraced power towers and juxtaposed numerals are left out (their reading is a matter of taste)."
    values = {"x": (3, 1), "y": (-2, 1), "a": (1, 2), "alpha": (5, 3), "x_1": (4, 1), "k": (7, 1)}

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Reduced", "FloorBelow", "ModRange"]
        fixed = '<<{"2", "x"}, {"3", "y"}, {"5", "a"}, {"7"}>>' if not q else '<<{"2", "y"}, {"x"}, {"5"}>>'
        one = dict(LeafSeq="<<>>", MaxOps=1, MaxUnary=1, MaxLeaves=2, Exhaustive=True)
        shapes = dict(LeafSeq=fixed, MaxOps=2, MaxUnary=1 if q else 2, MaxLeaves=3, Exhaustive=True)
        deep = dict(LeafSeq="<<>>", MaxOps=7, MaxUnary=4, MaxLeaves=8, Exhaustive=False)
        return [Model("Arith", dict(one, MaxUnary=0) if q else one, invs=inv, label="Arith one operation", timeout=2000),
                Model("Arith", shapes, invs=inv, label="Arith shapes", timeout=2000),
                Model("Arith", deep, mode="sim", invs=inv, num=400 if q else 20000, depth=40, label="Arith deep", timeout=3000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        one = lambda v: ""
        # every operator with every leaf, and every tree of operators (up to the sign of a sum, the command of a fraction, ...)
        leaf = lambda v: {(v["why"], m) for m in re.findall(r"\\sqrt\[?.\]?\{?|\\frac.|[\d,.]+E-?\d|[\d,.]+(?:\\%)?|\\alpha|x_|[xyak]", v["a"])}
        tree = lambda v: {re.sub(r"\(\)|\+(?!<)", "", v["why"]).replace("-<", "+<").translate(str.maketrans("Mglcq", "mggf/"))}
        out = cover(results[0].vectors, leaf, 1 if q else 40, seed) + (cover(results[1].vectors, tree, 1, seed) if q else thin(results[1].vectors, 60000, seed, group=one))
        return out + thin(results[2].vectors, 220 if q else 40000, seed, group=one)

    def op_value(self, v):
        e, err = l2s.parse(v["a"])
        want = Fraction(v["n"], v["d"])
        if err:
            return "latex2sympy(%r) raised %s; its value is %s" % (v["a"], err, want)
        got, err = l2s.exact(e, self.values)
        if err or got != want:
            return "latex2sympy(%r) = %s has value %s, specified %s" % (v["a"], l2s.show(e), err or got, want)


CHECK = C()
