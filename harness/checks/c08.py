from ..core import Check, thin
from ..tlc import Model
from .c07 import seqs

SYMS = [["x+1", "1+x"], ["2x", "x \\cdot 2", "x+x"], ["\\sqrt{2}", "\\frac{2}{\\sqrt{2}}", "2^{\\frac{1}{2}}"], ["\\frac{1}{3}", "1/3", "\\frac{2}{6}"], ["-y", "(-1)y"]]


class C(Check):
    id = "C08"
    technique = "TLA+ model of matrices under edits in all notations (TLC exhaustive and simulated); states replayed into is_equiv"
    level_note = "2x2 matrices, vectors of 2 and 3 entries over few entries exhaustively with every single edit; shapes up to 6 rows or 5 columns, symbolic entries and several edits by simulation."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["TransposeTwice", "Reflexive", "Sizes"]
        small = dict(Nums="{10000, 20000, 10040}" if q else "{10000, 20000, 10040, -5000}", Syms='<<>>', Shapes="{<<2, 2>>, <<3, 1>>, <<1, 2>>}", Writes=2 if q else 6, MaxEdits=1, Finish=False)
        vec = dict(Nums="{10000, -5000}", Syms=seqs(SYMS[:1]), Shapes="{<<1, 2>>, <<2, 1>>, <<1, 3>>, <<2, 3>>}" if not q else "{<<1, 2>>, <<2, 1>>, <<1, 3>>}", Writes=13, MaxEdits=1, Finish=False)
        deep = dict(Nums="{10000, 20000, -30000, 0, 5000, 5004, 120000, 20030}", Syms=seqs(SYMS), Shapes="{<<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<1, 4>>, <<3, 1>>, <<2, 4>>, <<5, 2>>, <<2, 5>>, <<6, 1>>, <<5, 1>>}",
                    Writes=26, MaxEdits=2, Finish=True)
        tall = dict(Nums="{10000, -5000}", Syms='<<>>', Shapes="{<<5, 1>>, <<1, 5>>, <<6, 1>>}", Writes=3, MaxEdits=1, Finish=False)
        return [Model("Matrices", small, invs=inv, label="Matrices small"), Model("Matrices", vec, invs=inv, label="Matrices vectors"),
                Model("Matrices", deep, mode="sim", num=1600 if q else 10000, depth=18, label="Matrices large"),
                Model("Matrices", tall, invs=inv, label="Matrices tall and wide")]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        out = []
        for r, cap in zip(results, (110, 50, 90, 60)):
            out += thin(r.vectors, cap if q else 3000, seed, lambda v: (v["why"], v["exp"]))
        for v in out:
            # the notation with every backslash doubled
            for side, flag in (("a", "da"), ("b", "db")):
                if v.pop(flag, False):
                    v[side] = v[side].replace("\\", "\\\\")
        return out


CHECK = C()
