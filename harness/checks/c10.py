from ..core import Check, cover, thin
from ..tlc import Model

LETTERS = [c for c in "abcfghjklmnopqrstuvwxyzABCDFGHJKLMNPQRSTUVWXYZ"] + ["\\\\%s " % g for g in "alpha beta gamma delta theta lambda mu omega varphi Gamma Delta".split()]


class C(Check):
    id = "C10"
    technique = "TLA+ model of rational functions in factored form, their writings and single mutations, with polynomial identity as oracle (TLC simulated and exhaustive); states replayed into is_equiv"
    level_note = "Functions of one or two factors above and below with coefficients of small size; every behaviour is a ground truth, a writing of it and a rewriting or single mutation; TLC's simulator samples them, a small constant set is exhaustive."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Distributes", "SameIsReflexive"]
        letters = '<<<<"x", "y">>, <<"a", "b">>, <<"t", "x">>, <<"m", "n">>, <<"\\\\alpha ", "x">>>>'
        small = dict(Coefs="{0, 1, -2}" if not q else "{0, -2}", Consts="{3}", MaxNum=1, MaxDen=0, MaxSteps=1, Letters='<<<<"x", "y">>>>', Finish=False, OnlyFold=False)
        one = dict(Coefs="{0, 1, -1, 2, 3}", Consts="{0, 1, -2, 5}", MaxNum=2, MaxDen=1, MaxSteps=1, Letters=letters, Finish=True, OnlyFold=False)
        three = dict(one, Coefs="{0, 1, -1, 2}", MaxNum=3, MaxDen=0)
        every = dict(Coefs="{0, 1}", Consts="{3}", MaxNum=1, MaxDen=0, MaxSteps=1, Finish=False, OnlyFold=True,
                     Letters="<<" + ", ".join('<<"%s", "%s">>' % (a, "y" if a != "y" else "x") for a in LETTERS) + ">>")
        return [Model("Polys", small, invs=inv, label="Polys small"),
                Model("Polys", one, mode="sim", invs=inv, num=1100 if q else 20000, depth=11, label="Polys quotients"),
                Model("Polys", three, mode="sim", invs=inv, num=700 if q else 12000, depth=11, label="Polys products"),
                Model("Polys", every, label="Polys letters")]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        return thin(results[0].vectors, 12 if q else 400, seed) + results[1].vectors + results[2].vectors \
            + cover(results[3].vectors, lambda v: [(v["letter"], v["fold"], v["exp"])], 2 if q else 20, seed)


CHECK = C()
