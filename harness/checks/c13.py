import random
from .. import core
from ..core import Check, thin
from ..tlc import Model

TOKENS = ["0", "1", "7", "12", "3.5", ".", "x", "y", "i", "e", "E", "I", "inf", "nan", "U", "n!", "+", "-", "*", "/", "^", "_", "**", "=", "==", "<", ">", "!=",
          ",", ";", ":", "%", "$", "#", "&", "@", "~", "?", "!", "|", "'", '"', "`", "\\", "(", ")", "[", "]", "{", "}", "\\{", "\\}", " ", "\n", "\t", "",
          "\\frac", "\\frac{", "\\dfrac12", "\\sqrt", "\\sqrt[", "\\sqrt{", "\\left", "\\right", "\\left(", "\\right)", "\\left\\{", "\\text{", "\\text", "\\mbox{m}",
          "\\begin{pmatrix}", "\\end{pmatrix}", "\\begin", "\\end{cases}", "\\begin{array}{cc}", "\\\\", "\\cdot", "\\times 10^", "\\div", "\\pm", "\\%", "\\$", "\\circ", "^\\circ",
          "\\pi", "\\infty", "\\cup", "\\cap", "\\in", "\\leq", "\\ge", "\\neq", "\\sin", "\\log_", "\\ln", "\\int", "\\sum_{n=1}^", "\\lim_{x\\to0}", "\\mathrm{", "\\mathbf{R}",
          "\\alpha", "\\overline{", "\\hat", "\\mathbb{R}", "\\ ", "\\!", "\\,", "\\;", "\\quad", "pm", "10:30", "million", " and ", " or ", "cm", "meters", "_{2}", "^2", "^{-1}",
          "()", "[]", "{}", "\\frac{}{}", "[[1,2],[3]]", "None", "lambda", "import", "True", "[1", "2)", "ﬁ", "é", "√", "π", "≤", "∞", "−", "²", "½", "中", "\u200b", "0x1F", "1e400", "1e-400",
          "^\\prime", "\\ce{", "dx", "\\partial", "det", "\\variable{a}", "\\boxed{", "Matrix", "oo", "zoo", "Symbol", "x_{1}", "\\mod", "\\binom", "\\xrightarrow{", "[-1]", "1,000", "'''", "\\x", "(" * 12, "{" * 9]
ANSWERS = [["\\frac", "{", "1", "}", "{", "2", "}"], ["(", "1", ",", "\\infty", ")", "\\cup", "[", "2", ",", "3", "]"], ["x", "=", "1", ",", " ", "x", "=", "2"],
           ["\\begin{pmatrix}", "1", "&", "2", "\\\\", "3", "&", "4", "\\end{pmatrix}"], ["3", "\\sqrt", "{", "5", "}", "+", "2", "i"], ["30", "^", "\\circ"],
           ["10:30", "\\text{", "pm", "}"], ["50", "\\%"], ["1", ",", "234", ".", "5"], ["\\{", "1", ",", "2", "\\}"], ["f", "(", "x", ")", "=", "x", "^", "{", "2", "}"],
           ["1", "0", "1", "_", "{", "2", "}"], ["$", "4", ".", "5", "0"], ["2", "x", "+", "1", "\\leq", " ", "5"], ["\\left", "(", "1", ",", "2", "\\right", ")"],
           ["1", " ", "\\frac", "12", "\\text{", " cm", "}", "^", "2"], ["[", "[", "1", ",", "2", "]", ",", "[", "3", ",", "4", "]", "]"], ["\\log", "_", "2", "{", "8", "}"], ["-", "1", "\\times 10^", "{", "5", "}"]]
TYPES = ["<none>", "", "Complex", "Set", "Vector", "Function", "Real", "Set(Vector", "Complex, Set", "Interval(s)", "no such type", "*"]


def tla(x):
    if isinstance(x, list):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if any(ord(c) > 126 for c in x):
        x = "".join(c if ord(c) <= 126 else "<u%04x>" % ord(c) for c in x)
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def plain(x):
    import re
    return re.sub(r"<u([0-9a-f]{4})>", lambda m: chr(int(m.group(1), 16)), x)


class C(Check):
    id = "C13"
    technique = "TLA+ model of texts reached by editing token sequences, with the verdicts totality and identity require (TLC exhaustive and simulated); states replayed into is_equiv and is_equiv_type"
    level_note = "Every text of up to two tokens out of about 170, against itself, blank, missing and the empty answer; edits of well-formed answers and random token sequences by simulation, with 12 type texts. The code's own time limit is shortened to 4 s for this check."
    hang = 100.0

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Reflexive", "BlankIsNothing"]
        base = dict(Tokens=tla(TOKENS), Answers=tla(ANSWERS), Types=tla(TYPES))
        one = dict(base, Answers=tla(ANSWERS[seed % 3::3] if q else ANSWERS), MaxEdits=1, Length=12, Whole=False)
        two = dict(base, Answers="<<>>", MaxEdits=2, Length=3, Whole=False)
        many = dict(base, MaxEdits=9, Length=14, Whole=True)
        ms = [Model("Strings", one, invs=inv, label="Strings one edit"),
              Model("Strings", many, mode="sim", invs=inv, num=900 if q else 40000, depth=16, label="Strings many edits")]
        if not q:
            ms.append(Model("Strings", two, invs=inv, label="Strings two tokens"))
        return ms

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        rnd = random.Random(seed)
        out = []
        for r in results:
            vs = sorted(r.vectors, key=core.key_of)
            out += rnd.sample(vs, min(len(vs), 2200 if q else 30000))
        return out

    def prepare(self):
        super().prepare()
        import sys
        for name, mod in list(sys.modules.items()):
            if name.startswith("math_evaluation") and hasattr(mod, "TIMEOUT_SECONDS"):
                mod.TIMEOUT_SECONDS = 4

    def op_total(self, v):
        a, b, t = (None if v[k] == "<none>" else plain(v[k]) for k in "abt")
        calls = [("is_equiv(%r, %r)" % (a, b), lambda: core.math_eval.is_equiv(a, b)),
                 ("is_equiv_type(%r, %r, %r)" % (a, b, t), lambda: core.math_eval.is_equiv_type(a, b, t))]
        for what, call in calls:
            try:
                out = call()
            except Exception as e:
                return "%s raised %s: %s" % (what, type(e).__name__, str(e)[:200])
            if not isinstance(out, bool):
                return "%s returned %r, which is not a bool" % (what, out)
            if v["exp"] != "bool" and out is not (v["exp"] == "true"):
                return "%s = %r, specified %s" % (what, out, v["exp"])


CHECK = C()
