import re
from .. import core, l2s
from ..core import Check, cover, thin
from ..tlc import Model


class C(Check):
    id = "C17"
    technique = "TLA+ model of syntax trees and all spellings of each construct (TLC exhaustive per construct, mixed by simulation); both texts parsed by the real parser and the trees compared"
    level_note = "Every spelling of each of 53 constructs and every kind of blank, over trees of one construct (quick; two thorough); trees of up to 6 constructs with everything mixed by simulation."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Balanced", "BarsMarked"]
        one = dict(LeafNames='{"two", "x"}' if q else '{"two", "seven", "twelve", "half", "pct", "x", "y", "alpha", "pi"}', MaxOps=1, MaxLeaves=2, Exhaustive=True, Only="{}")
        two = dict(LeafNames='{"x"}' if q else '{"x", "seven"}', MaxOps=2, MaxLeaves=2 if q else 3, Exhaustive=True, Only="{}")
        deep = dict(LeafNames='{"two", "seven", "twelve", "half", "pct", "x", "y", "k", "alpha", "pi"}', MaxOps=5, MaxLeaves=5, Exhaustive=False, Only="{}")
        # constructs whose arguments may stand without braces, with every digit and more letters
        bare = dict(LeafNames='{"zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "x", "n", "z", "cap"}', MaxOps=1, MaxLeaves=2, Exhaustive=True,
                    Only='{"frac1", "sqrt1", "pow1", "sub", "subpow", "int1", "log"}')
        # every leaf next to every kind of blank
        leaf = dict(LeafNames='{"two", "half", "pct", "thousand", "bigpct", "sci", "twelve", "x", "tt", "alpha", "theta", "pi"}', MaxOps=1, MaxLeaves=2, Exhaustive=True,
                    Only='{"mul", "jux", "sum", "dif", "div", "neg", "eq", "pow", "fact"}')
        return [Model("Spell", one, invs=inv, label="Spell one construct"), Model("Spell", two, invs=inv, label="Spell two constructs"),
                Model("Spell", deep, mode="sim", invs=inv, num=400 if q else 15000, depth=14, label="Spell mixed"),
                Model("Spell", bare, invs=inv, label="Spell bare arguments"), Model("Spell", leaf, invs=inv, label="Spell leaves")]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        one = lambda v: ""
        words = lambda v: {(v["why"], x) for x in re.findall(r"\d[\d,.]*(?:E\d)?(?:\\%)?|\\?[a-zA-Z]+", v["a"])}
        more = cover(results[3].vectors, words, 1 if q else 100, seed) + cover(results[4].vectors, words, 1 if q else 100, seed)
        return more + thin(results[0].vectors, 2 if q else 40, seed) + thin(results[1].vectors, 2 if q else 120, seed) + thin(results[2].vectors, 150 if q else 15000, seed, group=one)

    def op_same(self, v):
        a, ea = l2s.parse(v["a"])
        b, eb = l2s.parse(v["b"])
        if ea or eb:
            # (sympy itself may be unable to compare or take limits at some values: then for both spellings alike)
            if ea and eb and ea.split(":")[0] == eb.split(":")[0] != "Exception":
                return None
            if ea and eb:
                return "neither %r nor %r is parsed: %s" % (v["a"], v["b"], ea)
            return "%r is parsed, its spelling %r raises %s" % ((v["a"], v["b"], eb) if eb else (v["b"], v["a"], ea))
        if core.sympy.srepr(a) != core.sympy.srepr(b):
            return "%r is read as %s, its spelling %r as %s" % (v["a"], l2s.show(a), v["b"], l2s.show(b))

    def nontrivial(self, v):
        return v["a"] != v["b"]


CHECK = C()
