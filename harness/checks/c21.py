from fractions import Fraction as F
from .. import core, l2s
from ..core import Check, thin
from ..tlc import Model

seen = {}


def sym(text):
    """What a text parses to, parsed once per process."""
    if text not in seen:
        e, err = l2s.parse(text)
        seen[text] = (e if err is None else None, err)
    return seen[text]


class C(Check):
    id = "C21"
    technique = "TLA+ specification of identifiers, their spellings and products of them (TLC exhaustive over the listed identifiers and spellings, simulated for sums of products); each text parsed by the real parser, symbols compared pairwise and values exactly"
    listed = ()
    level_note = "Every letter, Greek and other symbol command and accent of the grammar, representative subscripts; all pairs compared; d followed by a letter, e and E as names excluded."

    def models(self, tier, seed):
        q = tier == "quick"
        return [Model("Idents", dict(Mode='"list"'), label="Idents list"), Model("Idents", dict(Mode='"terms"'), mode="sim", num=700 if q else 20000, depth=30, label="Idents terms", timeout=2000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        self.listed = [v for v in results[0].vectors if v["op"] == "ident"]
        return results[0].vectors + thin(results[1].vectors, 1200 if q else 30000, seed)

    def op_ident(self, v):
        e, err = sym(v["a"])
        if err:
            return "latex2sympy(%r) raised %s" % (v["a"], err)
        s = core.sympy
        if v["kind"] == "symbol":
            ok = isinstance(e, s.Symbol)
        elif v["kind"] == "app":
            ok = isinstance(e, s.core.function.AppliedUndef)
        else:
            ok = e == {"pi": s.pi, "E": s.E, "I": s.I, "oo": s.oo, "EmptySet": s.S.EmptySet}[v["kind"]]
        if not ok:
            return "latex2sympy(%r) = %s, specified: %s" % (v["a"], l2s.show(e), v["kind"])

    def op_pair(self, v):
        a, e1 = sym(v["a"])
        b, e2 = sym(v["b"])
        if e1 or e2:
            return "latex2sympy(%r), latex2sympy(%r) raised %s" % (v["a"], v["b"], e1 or e2)
        if (a == b) is not v["same"]:
            return "latex2sympy(%r) = %s and latex2sympy(%r) = %s, specified %s" % (v["a"], l2s.show(a), v["b"], l2s.show(b), "the same" if v["same"] else "different")

    def op_power(self, v):
        a, e1 = sym(v["a"])
        b, e2 = sym(v["base"])
        p, e3 = sym(v["p"])
        if e1 or e2 or e3:
            return "latex2sympy(%r) raised %s" % (v["a"], e1 or e2 or e3)
        if not (isinstance(a, core.sympy.Pow) and a.base == b and a.exp == p):
            return "latex2sympy(%r) = %s, specified the power %s of %s" % (v["a"], l2s.show(a), p, b)

    def op_word(self, v):
        letters = v["letters"]
        env = {"#": {}}
        want = F(1)
        for i, c in enumerate(letters):
            e, err = sym(c)
            if err:
                return "latex2sympy(%r) raised %s" % (c, err)
            env["#"][e] = F(2 * ord(c) + 1, 7)
            want *= F(2 * ord(c) + 1, 7)
        return self.value(v["a"], env, want)

    def value(self, text, env, want):
        e, err = l2s.parse(text)
        if err:
            return "latex2sympy(%r) raised %s" % (text, err)
        got, err = l2s.exact(e, env)
        if err or got != want:
            return "latex2sympy(%r) = %s, of value %s with %s, specified %s" % (text, l2s.show(e), err or got, {str(k): str(x) for k, x in env["#"].items()}, want)

    def op_terms(self, v):
        env = {"#": {}}
        for x in v["env"]:
            if x:
                e, err = sym(x[0])
                if err:
                    return "latex2sympy(%r) raised %s" % (x[0], err)
                env["#"][e] = F(x[1], x[2])
        return self.value(v["a"], env, F(v["n"], v["d"]))

    def extra(self, tier, seed):
        """Every pair of identifiers: the same expression iff the same record."""
        fails, by = [], {}
        for v in self.listed:
            e, err = sym(v["a"])
            if err is None:
                by.setdefault(v["id"], []).append((v["a"], e))
        first = {}
        for k, xs in sorted(by.items()):
            for t, e in xs:
                if e != xs[0][1]:
                    fails.append(({"op": "pair", "a": xs[0][0], "b": t, "same": True}, None))
            if xs[0][1] in first:
                fails.append(({"op": "pair", "a": first[xs[0][1]], "b": xs[0][0], "same": False}, None))
            else:
                first[xs[0][1]] = xs[0][0]
        n = sum(len(x) for x in by.values())
        return [(v, self.op_pair(v)) for v, _ in fails], {"pairs_compared": n * (n - 1) // 2, "identifiers": len(by)}


CHECK = C()
