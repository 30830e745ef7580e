from ..core import Check, thin
from ..tlc import Model

Q = dict(
    Decimals="{<<n, 0>> : n \\in {0, 1, -1, 2, -3, 7, -12, 144, 9999}} \\cup {<<0, 2>>, <<5, 1>>, <<-5, 1>>, <<999, 3>>, <<-999, 3>>, <<1001, 3>>, <<99, 2>>, <<100, 2>>, <<25, 2>>, "
             "<<-625, 4>>, <<2, 2>>, <<1, 3>>, <<-1, 3>>, <<12345, 3>>, <<-995, 1>>, <<12345, 1>>, <<15, 1>>, <<-105, 2>>, <<3, 4>>, <<14286, 5>>, <<314, 2>>}",
    Factors="{0, 1, 50, 90, 98, 102, 110, 199, 500, 1000}",
    Fracs="{<<a, b>> : a \\in {1, 2, 5, -1, -4, 7, 11, -13, 22}, b \\in {2, 3, 7, 11}}",
    Offsets="{-60, -51, -26, -11, -7, -6, -4, -3, -1, 0, 1, 2, 4, 5, 6, 8, 12, 30, 49, 51, 53, 200}",
    Roots="{<<2, 1>>, <<3, 1>>, <<5, 1>>, <<7, 1>>, <<10, 1>>, <<17, 1>>, <<50, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>, <<5, 4>>, <<3, 5>>}",
    Pis="{<<1, 1>>, <<2, 1>>, <<3, 1>>, <<12, 1>>, <<1, 2>>, <<3, 4>>, <<5, 6>>, <<25, 3>>}",
    Prefixes='{"1", "73", "54321", "123456"}')


class C(Check):
    id = "C01"
    technique = "TLA+ model of one numeric comparison (TLC, exhaustive over the constants); every state replayed into is_equiv"
    level_note = ("Exhaustive over the constants of the model: every class of ground truth, distances at chosen fractions of the threshold, both signs and roles; "
                  "distances within 1 % of the threshold are not generated because the code computes in floating point.")

    def models(self, tier, seed):
        c = dict(Q)
        if tier == "thorough":
            c["Factors"] = "{0, 1, 10, 25, 50, 75, 90, 95, 98, 99, 101, 102, 105, 110, 150, 199, 500, 999, 1000, 2000}"
            c["Fracs"] = "{<<a, b>> : a \\in (-13..13) \\ {0}, b \\in 2..13}"
            c["Offsets"] = "-60..60"
            c["Roots"] = "{<<n, 1>> : n \\in {2, 3, 5, 6, 7, 8, 10, 11, 13, 17, 20, 50, 77, 99}} \\cup {<<2, 2>>, <<3, 2>>, <<2, 3>>, <<5, 4>>, <<3, 5>>, <<7, 3>>, <<7, 4>>}"
            c["Pis"] = "{<<a, b>> : a \\in {1, 2, 3, 5, 7, 12, 25}, b \\in {1, 2, 3, 4, 6}}"
        return [Model("Tolerance", c, invs=["SameAccepted"], label="Tolerance")]

    def vectors(self, results, tier, seed):
        return thin(results[0].vectors, 1900 if tier == "quick" else 10 ** 6, seed)


CHECK = C()
