from ..core import Check, thin
from ..tlc import Model


class C(Check):
    id = "C09"
    technique = "TLA+ model of relations between linear forms under rewriting and edits (TLC exhaustive and simulated); states replayed into is_equiv"
    level_note = "All relation kinds over small coefficients with every single edit exhaustively (replayed sampled per pair of kinds); several edits by simulation. A definition against an equation with equal right sides is left unspecified."
    names = '{"x", "y", "f(x)", "g(x,y)", "x_1", "\\\\alpha", "z"}'

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Symmetric", "SwapKeeps"]
        small = dict(Coefs="{0, 1, -2}" if q else "{0, 1, -1, 2, -2}", Consts="{0, 3}" if q else "{0, 1, -3}", Names=self.names, MaxEdits=1, Writes=2 if q else 4, Finish=False)
        deep = dict(Coefs="{0, 1, -1, 2, -3}", Consts="{0, 1, -2, 6}", Names='{"y", "f(x)"}', MaxEdits=3, Writes=4, Finish=True)
        return [Model("Relations", small, invs=inv, label="Relations one edit"),
                Model("Relations", deep, mode="sim", num=700 if q else 6000, depth=8, label="Relations several edits")]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        return thin(results[0].vectors, 45 if q else 1500, seed) + thin(results[1].vectors, 30 if q else 400, seed)


CHECK = C()
