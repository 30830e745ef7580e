from ..core import Check, thin
from ..tlc import Model


class C(Check):
    id = "C04"
    technique = "TLA+ model of answers with two readings and their matching relation (TLC, exhaustive over the constants); states replayed into is_equiv"
    level_note = "Every writing of every percentage, angle, numeral and time of the model against its readings, misreadings and other such answers; quick replays a seeded sample of the exhaustive state space that keeps every pair of kinds."

    def models(self, tier, seed):
        q = tier == "quick"
        c = dict(
            Percents="{<<50, 0>>, <<125, 1>>, <<-20, 0>>, <<5, 1>>, <<100, 0>>, <<150, 0>>, <<3, 2>>, <<125, 4>>}" if q else
            "{<<n, 0>> : n \\in {1, 2, 5, 10, 33, 50, 75, 99, 100, 101, 150, 250, -20, -5, -100}} \\cup {<<125, 1>>, <<5, 1>>, <<3, 2>>, <<-25, 1>>, <<3333, 2>>, <<125, 4>>, <<2, 2>>, <<7, 3>>, <<12345, 3>>}",
            Degrees="{<<30, 0>>, <<45, 0>>, <<90, 0>>, <<225, 1>>, <<180, 0>>, <<-60, 0>>, <<120, 0>>}" if q else
            "{<<n, 0>> : n \\in {1, 10, 15, 18, 30, 36, 45, 60, 72, 90, 100, 120, 135, 150, 180, 270, 360, -30, -45, -60, -90}} \\cup {<<225, 1>>, <<75, 1>>, <<1125, 1>>}",
            Numerals="{<<<<1, 0, 1>>, 2>>, <<<<1, 2>>, 3>>, <<<<7, 7>>, 8>>, <<<<2, 0, 1, 3>>, 4>>, <<<<5>>, 10>>, <<<<1, 0>>, 5>>, <<<<9, 4>>, 16>>, <<<<1, 0, 0, 1, 1>>, 2>>, <<<<4, 3, 2, 1>>, 5>>, <<<<8, 0>>, 9>>, <<<<1, 1>>, 12>>}" if q else
            "UNION {{<<d, b>> : d \\in [1..n -> 0..Min2(b - 1, 9)] } : n \\in 2..3, b \\in {2, 3}} \\cup {<<<<x, y>>, b>> : x \\in 1..6, y \\in 0..6, b \\in 7..16} \\cup {<<<<1, 0, 0, 1, 1>>, 2>>, <<<<4, 3, 2, 1>>, 5>>}",
            Hours="{3, 11, 12}" if q else "1..12", Minutes="{0, 5, 30}" if q else "{0, 1, 5, 30, 59}",
            Seconds="{-1, 0, 9}" if q else "{-1, 0, 9, 45}", Small4=False)
        return [Model("Readings", c, invs=["AtMostTwo", "Reflexive"])]

    def vectors(self, results, tier, seed):
        return thin(results[0].vectors, 260 if tier == "quick" else 12000, seed)


CHECK = C()
