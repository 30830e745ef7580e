import re
from ..core import Check, cover
from ..tlc import Model


class C(Check):
    id = "C02"
    technique = "TLA+ model of numbers and their writings (TLC, exhaustive over the constants); every pair of writings replayed into is_equiv"
    level_note = "Exhaustive over the numbers and writings of the model; negative cases are the numbers a misreading would produce, beyond the tolerance in both directions."

    def models(self, tier, seed):
        if tier == "quick":
            fr = "{<<1, 2>>, <<-1, 2>>, <<3, 2>>, <<-3, 2>>, <<-7, 3>>, <<5, 8>>, <<51, 4>>, <<-22, 7>>, <<13, 12>>, <<127, 16>>, <<305, 3>>, <<1, 16>>}"
            te = "{<<5, 0>>, <<-12, 2>>, <<1234567, 0>>, <<-1234, 0>>, <<15, 5>>, <<25, 8>>, <<-3, 12>>, <<15, -4>>, <<-25, -1>>, <<12345, -2>>, <<104, -3>>}"
            sh = "{1, 4}"
        else:
            fr = "{<<a, b>> \\in ({1, 2, 3, 5, 7, 9, 10, 11, 13, 22, 51, 99, 127, 305, 1001} \\cup {-1, -2, -3, -5, -7, -10, -13, -51, -101}) \\X {2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 25} : Gcd(a, b) = 1}"
            te = "{<<m, e>> \\in ({1, 2, 5, 12, 15, 25, 104, 999, 1234, 1001, 12345, 1234567} \\cup {-1, -3, -25, -104, -1234, -98765}) \\X {-4, -3, -2, -1, 0, 1, 2, 3, 5, 6, 8, 9, 12} : m % 10 # 0 /\\ ~(e < -2 /\\ Abs(m) > 999)}"
            sh = "{1, 2, 3, 5, 8, 13}"
        fr2 = "{<<-3, 2>>, <<5, 8>>, <<13, 12>>}" if tier == "quick" else "{<<1, 2>>, <<-3, 2>>, <<5, 8>>, <<13, 12>>, <<-22, 7>>, <<305, 3>>}"
        te2 = "{<<-12, 2>>, <<1234567, 0>>, <<25, 8>>, <<15, -4>>}" if tier == "quick" else "{<<5, 0>>, <<-12, 2>>, <<1234567, 0>>, <<25, 8>>, <<-3, 12>>, <<15, -4>>, <<12345, -2>>}"
        around = '{"tuple", "list", "set", "braces", "or", "and", "column", "row", "unit", "dollars", "nested", "ray", "rays", "value", "apply", "most", "differs"}'
        inv = ["Different", "Enough"]
        return [Model("Notation", dict(Fracs=fr, Tens=te, Shifts=sh, Contexts='{"bare"}'), invs=inv),
                Model("Notation", dict(Fracs=fr2, Tens=te2, Shifts="{1}" if tier == "quick" else "{1, 4, 7}", Contexts=around), invs=inv, label="Notation in compound answers")]

    def vectors(self, results, tier, seed):
        # every writing in every context, and every context with several wrong numbers
        ctx = lambda v: {(v["why"], v["exp"], re.sub(r"\d+", "9", v["a"]) if v["exp"] else len(v["b"]) % 4)}
        return results[0].vectors + (cover(results[1].vectors, ctx, 1, seed) if tier == "quick" else results[1].vectors)


CHECK = C()
