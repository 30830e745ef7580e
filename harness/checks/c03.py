import random
from ..core import Check, key_of
from .. import core
from ..tlc import Model

LONG = ["立方厘米", "立方分米", "平方公里", "平方英尺", "平方英里", "平方英寸", "平方英寻", "千公里", "平方米", "立方米", "千米", "厘米", "分米", "海里", "毫米",
        "公里", "英里", "公尺", "英尺", "元", "分", "角", "米", "度", "里", "升", "centimeter", "second", "degree", "dollar", "minute", "radian", "square",
        "pound", "month", "units", "meter", "edges", "mile", "hour", "year", "cent", "foot", "feet", "inch", "yard", "week", "day", "rad", "mph"]
SHORT = ["eV", "kg", "mg", "km", "cm", "dm", "ml", "mL", "ft", "in"]
LETTER = ["L", "l", "m", "g"]


def tset(xs):
    return "{" + ", ".join('"%s"' % x.replace("\\", "\\\\") for x in xs) + "}"


NUM = [("5", ["6", "-5", "25", "52", "10", "0.5"]), ("-3", ["3", "-4", "9", "-30"]), ("12.5", ["12", "125", "13"]), ("0", ["1", "-1", "2"]),
       ("0.25", ["0.26", "25"]), ("\\frac{3}{4}", ["\\frac{4}{3}", "3", "0.7"]), ("-\\frac{7}{2}", ["-7", "3.5", "-2"]),
       ("1,234", ["1235", "234"]), ("2\\sqrt{3}", ["\\sqrt{3}", "2", "3"]), ("3\\pi", ["3", "2\\pi"]), ("1\\frac{1}{2}", ["1", "2.5", "\\frac{11}{2}"]), ("100", ["10", "101"])]


def numbers(n):
    return "{" + ", ".join('[t |-> "%s", wrong |-> %s]' % (t.replace("\\", "\\\\"), tset(w)) for t, w in NUM[:n]) + "}"


class C(Check):
    id = "C03"
    technique = "TLA+ model of a number acquiring decorations step by step (TLC: exhaustive for one, random behaviours for several); every state replayed into is_equiv"
    level_note = "Every supported unit, plural, power and wrapper on at least one number exhaustively; combinations of several decorations are sampled by TLC's simulator."

    def models(self, tier, seed):
        one = dict(Numbers=numbers(1 if tier == "quick" else 2), LongUnits=tset(LONG), ShortUnits=tset(SHORT), LetterUnits=tset(LETTER), MaxDeco=1, UnitNumbers=tset([t for t, _ in NUM]),
                   Powers='{"", "^2", "^{2}", "^3", " ^2", "^{10}"}', Plurals='{"", "s", "es"}', Pads='{"", " "}', Finish="FALSE")
        deep = dict(one, Numbers=numbers(len(NUM)), MaxDeco=6, Finish="TRUE", Powers='{"", "^2"}', Plurals='{"", "s"}', Pads='{""}',
                    LongUnits=tset(LONG[1:44:6]), ShortUnits=tset(SHORT[seed % 4::4]), LetterUnits=tset(LETTER[:2]))
        flat = dict(deep, MaxDeco=2, UnitNumbers="{}", Finish="FALSE")
        n = 900 if tier == "quick" else 12000
        return [Model("Units", one, invs=["Wellformed"], label="Units one"),
                Model("Units", flat, invs=["Wellformed"], label="Units pairs without unit"),
                Model("Units", deep, mode="sim", num=n, depth=7, invs=["Wellformed"], label="Units combined")]

    def vectors(self, results, tier, seed):
        vs = results[0].vectors
        rnd = random.Random(seed)
        if tier == "quick":
            words = [v for v in vs if v.get("why") == "words"]
            rest = [v for v in vs if v.get("why") != "words"]
            # every unit, plural and power in each form occurs; the padding variants are thinned
            units = [v for v in rest if v["op"] == "deco"]
            other = [v for v in rest if v["op"] != "deco"]
            rnd.shuffle(units)
            rnd.shuffle(words)
            vs = other + units[:6500] + words[:400]
        return vs + results[1].vectors + results[2].vectors

    def op_deco(self, v):
        random.seed(key_of(v))
        eq = core.math_eval.is_equiv
        a, b = v["a"], v["b"]
        w = random.choice(sorted(v["wrong"]))
        for x, y, e in ((a, b, True), (b, a, True), (b, w, False), (w, b, False)):
            out = eq(x, y)
            if out is not e:
                return "is_equiv(%r, %r) = %r, specified %r" % (x, y, out, e)


CHECK = C()
