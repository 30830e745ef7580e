from ..core import Check, thin
from ..tlc import Model


def seqs(xs):
    return "<<" + ", ".join("<<" + ", ".join('"%s"' % t.replace("\\", "\\\\") for t in x) + ">>" for x in xs) + ">>"


PTS = [["-4", "-4.0", "-\\frac{8}{2}"], ["-\\sqrt{2}", "-2^{\\frac{1}{2}}", "-\\frac{\\sqrt{8}}{2}"], ["-\\frac{1}{3}", "-1/3", "-\\frac{2}{6}", "-\\frac13"], ["0", "0.0", "2-2"],
       ["\\frac{1}{2}", "0.5", "1/2", "\\frac12", ".5"], ["\\sqrt{3}", "3^{\\frac{1}{2}}", "\\frac{3}{\\sqrt{3}}"], ["2.5", "\\frac{5}{2}", "2\\frac{1}{2}", "5/2"],
       ["\\pi", "\\frac{2\\pi}{2}", "2\\pi/2"], ["12", "3 \\cdot 4", "12.0", "(2)(6)", "2(5+1)"]]
NEAR = [["2", "2.0"], ["2.0004", "2.00040"], ["2.006", "\\frac{1003}{500}"], ["3", "\\frac{6}{2}"]]


class C(Check):
    id = "C07"
    technique = "TLA+ model of unions and intersections of intervals denoting sets of pieces of the line (TLC exhaustive and simulated); states replayed into is_equiv"
    level_note = "One- and two-term answers over few endpoints exhaustively with every single edit; longer ones and several edits by simulation. Where endpoints lie within the tolerance of C06, one open or closed interval, which is also a pair, is left to it."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["CanonSame", "CanonUnique"]
        pick = lambda k: [PTS[i] for i in k]
        one = dict(Points=seqs(pick([2, 4, 7]) if q else pick([0, 2, 4, 7])), MaxTerms=1, MaxCaps=0, MaxEdits=1, Writes=6 if q else 12, Finish=False, Near=False)
        two = dict(Points=seqs(pick([1, 6])if q else pick([1, 4, 6])), MaxTerms=2, MaxCaps=0, MaxEdits=1, Writes=2, Finish=False, Near=False)
        cap = dict(Points=seqs(pick([3, 5])), MaxTerms=1, MaxCaps=1, MaxEdits=1, Writes=2, Finish=False, Near=False)
        near = dict(Points=seqs(NEAR[:3] if q else NEAR), MaxTerms=2, MaxCaps=0, MaxEdits=1, Writes=1 if q else 2, Finish=False, Near=True)
        deep = dict(Points=seqs(PTS), MaxTerms=4, MaxCaps=1, MaxEdits=3, Writes=12, Finish=True, Near=False)
        return [Model("Intervals", one, invs=inv, label="Intervals one term"), Model("Intervals", two, invs=inv, label="Intervals two terms"),
                Model("Intervals", cap, invs=inv, label="Intervals intersections"),
                Model("Intervals", deep, mode="sim", num=150 if q else 4000, depth=12, label="Intervals long"),
                Model("Intervals", near, invs=inv, label="Intervals with close endpoints")]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        out = []
        for r, cap in zip(results, (600, 260, 260, 150, 300)):
            out += thin(r.vectors, cap if q else 10000, seed)
        return out


CHECK = C()
