from ..core import Check, thin
from ..tlc import Model


def seqs(xs):
    return "<<" + ", ".join("<<" + ", ".join('"%s"' % t.replace("\\", "\\\\") for t in x) + ">>" for x in xs) + ">>"


def strs(xs, o="{", c="}"):
    return o + ", ".join('"%s"' % t.replace("\\", "\\\\") for t in xs) + c


BODIES = [["x+1", "1+x", "\\frac{2x+2}{2}", "x + 2 - 1"], ["x-1", "-1+x", "-(1-x)"], ["x^2-1", "(x-1)(x+1)", "x^{2} - 1"], ["2x", "x+x", "x \\cdot 2"],
          ["\\frac{1}{x}", "x^{-1}", "1/x"], ["3", "3.0", "\\frac{6}{2}"], ["\\sqrt{x}", "x^{\\frac{1}{2}}", "x^{0.5}"], ["2^x", "2^{x}"]]
TYPES = ["Set", "Vector", "Set or Vector", "Vector(s)", "Unordered Set", "Function, Set", "Vector, Complex", "Function", "Complex", "Real", "Others", "Interval(s)", "<none>", ""]


class C(Check):
    id = "C12"
    technique = "TLA+ models of compound answers and of definitions under answer types (TLC exhaustive and simulated); states replayed into is_equiv_type"
    level_note = "Types, pairs of types, other types and no type over small compound answers exhaustively and long ones by simulation; definitions exhaustively over the listed heads and bodies. Complex answers are decided in C11."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Reflexive", "OrderFree", "TypesOnlyWiden", "BothIsUnion"]
        base = dict(Types=strs(TYPES, "<<", ">>"), Tops='{"set", "par", "brk"}')
        small = dict(base, Inner='{}', Values="{10000, 10040, -20000}", Names='{""}', MaxLen=2 if q else 3, MaxEdits=2 if q else 1, Writes=3 if q else 7, Finish=False)
        deep = dict(base, Inner='{"par"}', Values="{10000, 10030, 10060, 5000, 5004, -30000, 120000}", Names='{"", "x"}', MaxLen=5, MaxEdits=3, Writes=14, Finish=True)
        if q:
            small["Types"] = strs(TYPES[:8:2] + TYPES[8:], "<<", ">>")
        defs = dict(Plain=strs(["f(x)", "y", "g(x)", "f^{-1}(x)", "h(x,y)", "a_n", "S_{n}", "\\phi(x)", "f\\left(x\\right)"]),
                    Kept=strs(["f'(x)", "y^2", "\\frac{dy}{dx}", "y^{-1}"] if not q else ["f'(x)", "y^2"]), Bodies=seqs(BODIES[:4] if q else BODIES), Nums="{9985, 10000, 10030, 0, 8}" if q else "{9985, 10000, 10030, -10030, -9985, 0, 8, 50000, 50030, 4000, 4003, 4005}",
                    Types=strs(["Function", "Function(s)", "Set, Function", "Function or Vector", "Real", "Complex", "Equation", "<none>"], "<<", ">>"))
        return [Model("Answers", small, invs=inv, label="Answers under types"),
                Model("Answers", deep, mode="sim", num=120 if q else 3000, depth=12, label="Answers under types, long"),
                Model("Typed", defs, invs=["OnlyWidens", "Symmetric"])]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        return thin(results[0].vectors, 8 if q else 1500, seed) + thin(results[1].vectors, 6 if q else 1000, seed) + thin(results[2].vectors, 22 if q else 4000, seed, lambda v: (v["why"], v["exp"]))


CHECK = C()
