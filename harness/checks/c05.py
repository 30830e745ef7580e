from ..core import Check, thin
from ..tlc import Model

TEXTNOTE = "Small answers exhaustively, larger ones (up to 7 elements, 3 edits, nested tuples and sets) by TLC's simulator; elements are numbers around the tolerance, named values, pairs and nested sets."


class C(Check):
    id = "C05"
    technique = "TLA+ model of compound answers under edits, with one-to-one pairing as the matching relation (TLC exhaustive and simulated); states replayed into is_equiv"
    level_note = TEXTNOTE
    caps = (300, 240, 240, 160, 220)
    tops = '{"set"}'

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Reflexive", "OrderFree", "TypesOnlyWiden", "BothIsUnion"]
        base = dict(Types="<<>>", Tops=self.tops)
        small = dict(base, Values="{10000, 10040, 10080, -20000}", Names='{""}', Inner="{}", MaxLen=3, MaxEdits=1, Writes=7 if q else 14, Finish=False)
        named = dict(base, Values="{10000, 30000, 5000}", Names='{"", "x", "y"}', Inner="{}", MaxLen=2, MaxEdits=1, Writes=7, Finish=False)
        nest = dict(base, Values="{10000, 20000, 20040}", Names='{""}', Inner='{"par", "brk"}', MaxLen=2, MaxEdits=1, Writes=2 if q else 7, Finish=False)
        sets = dict(base, Values="{10000, 30000, 30060}", Names='{""}', Inner='{"set"}' if q else '{"set", "par"}', MaxLen=2, MaxEdits=1, Writes=3, Finish=False)
        deep = dict(base, Values="{10000, 10030, 10060, 10090, 5000, 5004, 5008, -30000, 120000, 0}", Names='{"", "x"}', Inner='{"par", "set"}',
                    MaxLen=7, MaxEdits=3, Writes=14, Finish=True)
        return [Model("Answers", small, invs=inv, label="Answers tolerance chains"),
                Model("Answers", named, invs=inv, label="Answers named values"),
                Model("Answers", nest, invs=inv, label="Answers nested"),
                Model("Answers", sets, invs=inv, label="Answers nested sets"),
                Model("Answers", deep, mode="sim", num=300 if q else 8000, depth=14, label="Answers long")]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        out = []
        for r, cap in zip(results, self.caps):
            out += thin(r.vectors, cap if q else 6000, seed)
        return out


CHECK = C()
