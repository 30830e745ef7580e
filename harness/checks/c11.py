from ..core import Check, thin
from ..tlc import Model


class C(Check):
    id = "C11"
    technique = "TLA+ model of complex numbers as parts and as Gaussian expression trees with their value, writings and edits (TLC exhaustive and simulated); states replayed into is_equiv_type"
    level_note = "Parts a*root with four roots and every single edit exhaustively over a small set (replayed sampled); expression trees of up to 4 operations by simulation."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["ConjugateDiffers", "Field"]
        roots = '{"", "\\\\sqrt{2}", "\\\\sqrt{3}", "\\\\pi "}'
        parts = dict(Parts="{<<0, 1>>, <<1, 1>>, <<-3, 1>>, <<5, 2>>}", Roots='{"", "\\\\sqrt{3}"}' if q else roots, Gauss="{0}", MaxNodes=0, Writes=10, Finish=False)
        wide = dict(Parts="{<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-3, 1>>, <<5, 3>>, <<-1, 2>>}", Roots=roots, Gauss="{0, 1, -1, 2, -3, 4}", MaxNodes=4, Writes=140, Finish=True)
        return [Model("Complexes", parts, invs=inv, label="Complexes parts"),
                Model("Complexes", wide, mode="sim", invs=inv, num=2000 if q else 30000, depth=16, label="Complexes expressions")]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        return thin(results[0].vectors, 16 if q else 400, seed, group=lambda v: (v["why"], v["exp"])) + results[1].vectors


CHECK = C()
