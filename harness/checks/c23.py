from .. import core, l2s
from ..core import Check, thin
from ..tlc import Model

SMALL = ["x", "2", "+", "\\cdot ", "^", "(", ")", "{", "}", "\\frac", "|", ",", "=", "\\sqrt", "[", "]"]
MORE = SMALL + ["-", "!", "_", "\\sin ", "\\left(", "\\right)", "\\{", "\\}", "\\lfloor ", "\\rfloor ", "\\max ", "\\%", ".", "/", "&", "\\begin{pmatrix}", "\\end{pmatrix}", "\\end{bmatrix}", "<", ";"]


def texts(xs):
    return "{" + ", ".join('"' + x.replace("\\", "\\\\") + '"' for x in xs) + "}"


class C(Check):
    id = "C23"
    technique = "TLA+ recogniser of the parser's language reading one token a step (TLC: every token sequence up to a length; random well-formed texts with one corruption); every refused text given to the real parser"
    level_note = "Every sequence of 3 (thorough: 4) of 16 tokens and of 3 of 36 tokens (replayed sampled in quick), corruptions of texts of up to about 40 tokens by simulation. The recogniser takes a little more than the language: what it takes is not judged, e.g. lists inside lists or a trailing comma of an application."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["GrownTaken", "Balanced"]
        return [Model("Malformed", dict(Mode='"all"', Alphabet=texts(MORE), MaxLen=3, MaxOps=0), invs=["Balanced"], label="Malformed sequences of many tokens", timeout=2000),
                Model("Malformed", dict(Mode='"all"', Alphabet=texts(SMALL), MaxLen=4 if q else 5, MaxOps=0), invs=["Balanced"], label="Malformed sequences", timeout=3000),
                Model("Malformed", dict(Mode='"corrupt"', Alphabet="{}", MaxLen=0, MaxOps=7), mode="sim", invs=inv, num=1500 if q else 60000, depth=120, label="Malformed corruptions", timeout=3000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        one = lambda v: ""
        out = []
        for r, cap in zip(results, (1500, 1500, 2500) if q else (50000, 150000, 60000)):
            out += thin([v for v in r.vectors if v["op"] == "refuse"], cap, seed, group=one if r is not results[2] else lambda v: v["why"])
        return out

    def op_refuse(self, v):
        for text in (v["a"], v["b"]):
            e, err = l2s.parse(text)
            if not err:
                return "latex2sympy(%r) = %s, specified: refused (%s)" % (text, l2s.show(e), v["why"])


CHECK = C()
