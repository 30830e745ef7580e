import json, re
from fractions import Fraction as F
from .. import core, l2s
from ..core import Check, thin
from ..tlc import Model

FNS = dict(sin=(1, "odd"), cos=(2, "even"), tan=(3, "odd"), csc=(4, "odd"), sec=(5, "even"), cot=(6, "odd"), asin=(7, "odd"), atan=(9, "odd"), acsc=(10, "odd"), acot=(12, "odd"), sinh=(13, "odd"), cosh=(14, "even"),
           tanh=(15, "odd"), asinh=(16, "odd"), atanh=(18, "odd"), acos=(8, "none"), acosh=(17, "none"), asec=(11, "none"), log=(21, "none"), exp=(19, "none"), f=(25, "none"))
ENV = dict(x=F(3), z=F(2), y=F(-2), n=F(4), x_1=F(4), alpha=F(5, 3), t=F(9), A=F(1, 2))
ENV["x_{12}"] = F(8)
STYLES = ["frac", "dfrac", "tfrac"]


def ascii_printer():
    from latex2sympy.asciimath_printer import AsciiMathPrinter
    return AsciiMathPrinter()


class Unread(Exception):
    pass


# ------------------------------------------------ the value of a tree
def fn(name, a):
    if name not in FNS:
        raise Unread("function %s" % name)
    i, kind = FNS[name]
    h = F((i * 31 + abs(a.numerator) * 17 + a.denominator * 7) % 97 + 2, 3)
    if kind == "odd" and a <= 0:
        return -h if a else F(0)
    return h + 1 if kind == "none" and a < 0 else h


def poly(body, v, env):
    """Coefficients of a body that is a polynomial in v, from its values."""
    n = 9
    ys = [ev(body, {**env, v: F(i)}) for i in range(n + 1)]
    co = [F(0)] * n
    d = ys[:n]
    for j in range(1, n):
        for i in range(n - 1, j - 1, -1):
            d[i] = (d[i] - d[i - 1]) / j
    for c in reversed(range(n)):                            # Newton's form, expanded
        co = [d[c] + (-c) * co[0]] + [co[k - 1] - c * co[k] for k in range(1, n)]
    if at(co, F(n)) != ys[n]:
        raise Unread("not a polynomial in %s" % v)
    return co


def at(co, a):
    s = F(0)
    for c in reversed(co):
        s = s * a + c
    return s


def anti(co):
    return [F(0)] + [c / (i + 1) for i, c in enumerate(co)]


def ev(t, env):
    k = t[0]
    if k == "num":
        return t[1]
    if k == "sym":
        if t[1] not in env:
            raise Unread("symbol %s" % t[1])
        return env[t[1]]
    if k in ("Int", "IInt", "Lim", "D"):
        co = poly(t[1], t[2], env)
        if k == "Int":
            return at(anti(co), ev(t[4], env)) - at(anti(co), ev(t[3], env))
        if k == "IInt":
            return at(anti(co), env[t[2]])
        if k == "Lim":
            return at(co, ev(t[3], env))
        for _ in range(t[3]):
            co = [i * c for i, c in enumerate(co)][1:] or [F(0)]
        return at(co, env[t[2]])
    if k in ("Sum", "Prod"):
        lo, hi = ev(t[3], env), ev(t[4], env)
        if lo.denominator != 1 or hi.denominator != 1 or hi - lo > 100:
            raise Unread("range %s..%s" % (lo, hi))
        s = F(0) if k == "Sum" else F(1)
        for i in range(int(lo), int(hi) + 1):
            y = ev(t[1], {**env, t[2]: F(i)})
            s = s + y if k == "Sum" else s * y
        return s
    if k == "fn":
        a = [ev(x, env) for x in t[2:]]
        if t[1] == "log" and len(a) == 2 and t[3] == ("E",):
            return fn("log", a[0])
        if t[1] == "log" and len(a) == 2:
            return fn("log", a[0]) / fn("log", a[1])
        if len(a) != 1:
            raise Unread("%s of %d arguments" % (t[1], len(a)))
        return fn(t[1], a[0])
    if k == "Pow" and t[1] == ("E",):
        return fn("exp", ev(t[2], env))
    if k == "E":
        return fn("exp", F(1))
    a = [ev(x, env) for x in t[1:]]
    if k == "Add":
        return sum(a, F(0))
    if k == "Mul":
        r = F(1)
        for x in a:
            r *= x
        return r
    if k == "Div":
        return a[0] / a[1]
    if k == "Pow":
        return l2s.power(*a)
    if k == "Abs":
        return abs(a[0])
    if k in ("floor", "ceiling"):
        return F(a[0].__floor__() if k == "floor" else a[0].__ceil__())
    if k in ("Max", "Min"):
        return max(a) if k == "Max" else min(a)
    if k == "factorial":
        return l2s.fact(a[0])
    if k == "binomial":
        return l2s.binom(*a)
    raise Unread(k)


def val(t):
    try:
        return ev(t, ENV), None
    except (Unread, l2s.NoValue, ZeroDivisionError, TypeError, KeyError, RecursionError) as e:
        return None, "%s: %s" % (type(e).__name__, e)


# ------------------------------------------------ between sympy and trees
def tree(e):
    s = core.sympy
    if e.is_Rational:
        return ("num", F(int(e.p), int(e.q)))
    if e.is_Float:
        return ("num", F(str(e)))
    if e.is_Symbol:
        return ("sym", e.name)
    name = type(e).__name__
    if name == "Exp1":
        return ("E",)
    if name in ("Integral", "Sum", "Product"):
        t = tree(e.function)
        for l in e.limits:
            if len(l) == 3:
                t = ({"Integral": "Int", "Sum": "Sum", "Product": "Prod"}[name], t, l[0].name, tree(l[1]), tree(l[2]))
            elif len(l) == 1 and name == "Integral":
                t = ("IInt", t, l[0].name)
            else:
                raise Unread("limits %s" % l)
        return t
    if name == "Limit":
        return ("Lim", tree(e.args[0]), e.args[1].name, tree(e.args[2]), str(e.args[3]))
    if name == "Derivative":
        t = tree(e.expr)
        for v, k in e.variable_count:
            t = ("D", t, v.name, int(k))
        return t
    if name == "UnevaluatedExpr":
        return tree(e.args[0])
    a = tuple(tree(x) for x in e.args)
    if name in ("Add", "Mul", "Pow", "Abs", "floor", "ceiling", "Max", "Min", "factorial", "binomial"):
        return (name,) + a
    if isinstance(e, s.Function):
        return ("fn", name) + a
    raise Unread(name)


def build(t, ev_):
    """The sympy expression of a specified tree, evaluated as built or not."""
    s = core.sympy
    kw = {} if ev_ else {"evaluate": False}
    k = t[0]
    if k == "num":
        return s.Rational(t[1], t[2])
    if k == "sym":
        return s.Symbol(t[1])
    b = lambda i: build(t[i], ev_)
    if k in ("Int", "Sum", "Prod"):
        return {"Int": s.Integral, "Sum": s.Sum, "Prod": s.Product}[k](b(1), (s.Symbol(t[2]), b(3), b(4)))
    if k == "IInt":
        return s.Integral(b(1), s.Symbol(t[2]))
    if k == "Lim":
        return s.Limit(b(1), s.Symbol(t[2]), b(3), t[4])
    if k == "D":
        return s.Derivative(b(1), (s.Symbol(t[2]), t[3]))
    if k == "fn":
        return (s.Function("f")(b(2)) if t[1] == "f" else getattr(s, t[1])(b(2), **kw))
    if k == "logb":
        return s.log(b(1), b(2), **kw)
    if k == "Neg":
        return s.Mul(s.Integer(-1), b(1), **kw)
    if k == "Sub":
        return s.Add(b(1), s.Mul(s.Integer(-1), b(2), **kw), **kw)
    if k == "Div":
        # sympy itself misprints the reciprocal of a fraction that is left standing
        return s.Mul(b(1), 1 / b(2) if b(2).is_Rational else s.Pow(b(2), s.Integer(-1), **kw), **kw)
    a = [b(i) for i in range(1, len(t))]
    if k == "factorial" and a[0].is_Integer:                # 2 0! for 2*0!
        return s.factorial(a[0])
    if k == "Pow" and a[0].is_Rational and not a[0].is_Integer and a[1].is_negative:
        return a[0] ** a[1]
    return getattr(s, k)(*a, **kw)


# ------------------------------------------------ reading the ASCII notation
class Ascii:
    TOK = re.compile(r"\s*(d(?:\^\(\d+\))?/d[A-Za-z]\w*(?:\^\(\d+\))?(?=\s)|\d+(?:\.\d+)?|[A-Za-z]\w*(?:\{\d+\})?|->|[-+*/^!|()=,_\[\]])")

    def __init__(self, text):
        self.t, i = [], 0
        text = text.rstrip()
        while i < len(text):
            m = self.TOK.match(text, i)
            if not m:
                raise Unread("%r" % text[i:])
            self.t.append(m.group(1))
            i = m.end()
        # int_ and the like are one name to the pattern above
        out = []
        for x in self.t:
            m = re.fullmatch(r"(lim|int|sum|prod)_", x)
            out += [m.group(1), "_"] if m else [x]
        self.t, self.i = out, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def take(self, want=None):
        x = self.peek()
        if not x or want not in (None, x):
            raise Unread("%r where %r is expected" % (x, want))
        self.i += 1
        return x

    def got(self, x):
        if self.peek() == x:
            self.i += 1
            return True

    def whole(self):
        e = [self.sum()]
        while self.got("="):
            e.append(self.sum())
        if self.peek():
            raise Unread("%r is left over" % self.t[self.i:])
        return e

    def sum(self):
        a = [self.term()]
        while self.peek() in ("+", "-"):
            neg = self.take() == "-"
            x = self.term()
            a.append(("Mul", ("num", F(-1)), x) if neg else x)
        return a[0] if len(a) == 1 else ("Add",) + tuple(a)

    def term(self):
        if self.got("-"):
            return ("Mul", ("num", F(-1)), self.term())
        self.got("+")
        a = self.factor()
        while self.peek() in ("*", "/"):
            a = ({"*": "Mul", "/": "Div"}[self.take()], a, self.factor())
        return a

    def group(self):
        self.take("(")
        e = self.sum()
        self.take(")")
        return e

    def factor(self):
        x = self.peek()
        m = re.fullmatch(r"d(?:\^\((\d+)\))?/d(.+?)(?:\^\((\d+)\))?", x)
        if m:
            self.take()
            if m.group(1) != m.group(3):
                raise Unread(x)
            return ("D", self.term(), m.group(2), int(m.group(1) or 1))
        if x == "lim":
            self.take()
            self.take("_")
            self.take("(")
            v = self.take()
            self.take("->")
            a, d = self.sum_until_side()
            self.take(")")
            return ("Lim", self.term(), v, a, d)
        if x in ("sum", "prod"):
            self.take()
            self.take("_")
            self.take("(")
            v = self.take()
            self.take("=")
            lo = self.sum()
            self.take(")")
            self.take("^")
            hi = self.group()
            return ({"sum": "Sum", "prod": "Prod"}[x], self.term(), v, lo, hi)
        if x == "int":
            self.take()
            lo = hi = None
            if self.got("_"):
                lo = self.group()
            if self.got("^"):
                hi = self.group()
            body = self.sum()
            d = self.take()
            if d == "d":
                d += self.take()
            if d[0] != "d" or len(d) < 2:
                raise Unread("%r where a differential is expected" % d)
            if (lo is None) != (hi is None):
                raise Unread("one limit only")
            return ("IInt", body, d[1:]) if lo is None else ("Int", body, d[1:], lo, hi)
        return self.power()

    def sum_until_side(self):
        """The point of a limit, which may end in ^+ or ^-."""
        j = self.i
        depth = 0
        while j < len(self.t) and (depth or self.t[j] != ")"):
            depth += {"(": 1, ")": -1}.get(self.t[j], 0)
            j += 1
        side = "+"
        if j - 2 > self.i and self.t[j - 1] in "+-" and self.t[j - 2] == "^":
            side = self.t[j - 1]
            del self.t[j - 2:j]
        elif j - 4 > self.i and self.t[j - 2] in "+-" and self.t[j - 4:j - 2] == ["^", "("] and self.t[j - 1] == ")":
            side = self.t[j - 2]
            del self.t[j - 4:j]
        else:
            side = None
        return self.sum(), side

    def power(self):
        a = self.atom()
        while self.peek() in ("!", "^"):
            if self.take() == "!":
                if self.peek() == "!":
                    raise Unread("!!")
                a = ("factorial", a)
            else:
                e = self.group() if self.peek() == "(" else self.atom()
                if self.peek() == "^":
                    raise Unread("a tower")
                a = ("Pow", a, e)
        return a

    def atom(self):
        x = self.take()
        if x == "(":
            self.i -= 1
            return self.group()
        if x == "|":
            e = self.sum()
            self.take("|")
            return ("Abs", e)
        if x[0].isdigit():
            return ("num", F(x))
        if not x[0].isalpha():
            raise Unread("%r where an operand is expected" % x)
        if self.peek() == "(" and x not in ENV:
            self.take("(")
            a = [self.sum()]
            while self.got(","):
                a.append(self.sum())
            self.take(")")
            if x == "sqrt" and len(a) == 1:
                return ("Pow", a[0], ("num", F(1, 2)))
            if x in ("Abs", "floor", "ceiling", "Max", "Min", "factorial", "binomial"):
                return (x,) + tuple(a)
            return ("fn", x) + tuple(a)
        return ("E",) if x == "E" else ("sym", x)


def sides(t):
    """The sides of the limits in a tree, inner ones first."""
    if not isinstance(t, (tuple, list)):
        return []
    out = []
    for x in t[1:]:
        out += sides(x)
    return out + ([t[4]] if t[0] == "Lim" else [])


class C(Check):
    id = "C28"
    technique = "TLA+ stack machine of expression trees with exact values, and of the histories of fraction styles (TLC exhaustive and simulated); the trees are printed by the real printers and the text read back"
    level_note = "Every operation over small operands exhaustively (replayed sampled), deep trees by simulation; LaTeX is read back by latex2sympy itself, the ASCII notation by the check's own reader; every history of three parses and prints (sampled)."

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["Agree", "Fundamental", "Scoped"]
        one = dict(LeafNames='{"x", "n", "half", "m2"}' if q else '{"x", "z", "n", "half", "m2", "x1", "al"}', MaxOps=1, MaxLeaves=3, Exhaustive=True, Wraps='{"expr"}')
        two = dict(LeafNames='{"x", "n"}' if q else '{"x", "n", "half"}', MaxOps=2, MaxLeaves=2, Exhaustive=True, Wraps='{"expr"}')
        deep = dict(LeafNames="{}", MaxOps=7, MaxLeaves=6, Exhaustive=False, Wraps='{"expr", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "list", "matrix", "row"}')
        return [Model("Printing", one, invs=inv, label="Printing one operation", timeout=2000), Model("Printing", two, invs=inv, label="Printing two operations", timeout=3000),
                Model("Printing", deep, mode="sim", invs=inv, num=400 if q else 15000, depth=24, label="Printing deep", timeout=3000),
                Model("Styles", dict(MaxSteps=2 if q else 3), invs=["LastSet"], label="Styles", timeout=2000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        caps = [60, 70, 70, 150] if q else [20000, 12000, 12000, 10000]
        g = lambda v: (v["op"], v["why"])
        return [dict(v, style=STYLES[(i + seed) % 3], ev=(i // 3 + seed) % 2 == 0) if v["op"] != "style" else v
                for r, c in zip(results, caps) for i, v in enumerate(thin(r.vectors, c, seed, group=g))]

    # ---------------------------------------------------------------- trees
    def objects(self, v):
        """Specified values and the sympy expressions built, as far as building keeps the values."""
        want = [F(*q) for q in v["qs"]]
        try:
            objs = [build(t, v["ev"]) for t in v["ts"]]
        except (ValueError, TypeError):                     # what sympy does not order
            return want, None
        for o, w in zip(objs, want):
            try:
                t = tree(o)
            except Unread:
                return want, None
            if val(t)[0] != w:
                return want, None
        return want, objs

    def wrap(self, op, o, ev_):
        s = core.sympy
        if op == "expr":
            return o[0]
        if op == "list":
            return list(o)
        if op == "row":
            return s.Matrix([o])
        if op == "matrix":
            return s.Matrix([o[:2], o[2:]])
        return getattr(s, op)(*o, evaluate=False)

    def unwrap(self, op, e):
        """The expressions a printed and parsed text consists of, or None when it is of another kind."""
        s = core.sympy
        if op == "expr":
            return [e] if isinstance(e, s.Expr) else None
        if op == "list":
            return list(e) if isinstance(e, (list, tuple)) else None
        if op in ("row", "matrix"):
            return list(e) if isinstance(e, s.MatrixBase) and (e.rows, e.cols)[0] == (1 if op == "row" else 2) else None
        return list(e.args) if type(e) is type(getattr(s, op)(s.Symbol("x"), s.Symbol("y"))) else None

    def one(self, v):
        want, objs = self.objects(v)
        if objs is None:
            return None
        return self.latex(v, want, objs) or self.ascii(v, want, objs)

    op_expr = op_list = op_row = op_matrix = op_Eq = op_Ne = op_Lt = op_Le = op_Gt = op_Ge = one

    def latex(self, v, want, objs):
        L, s = core.l2s, core.sympy
        # building joins operators of one kind, which are printed in notation that is not read
        if not v["tex"] or any(len(getattr(x, "limits", "1")) > 1 or len(getattr(x, "variables", "1")) > 1 for o in objs for x in s.preorder_traversal(o)):
            return None
        try:
            whole = self.wrap(v["op"], objs, v["ev"])
        except TypeError:                                   # no order between them
            return None
        names = json.dumps(v["ts"])
        # read wrongly wherever it is written: two integrals in one expression, numbers of three digits in a list;
        # and a binomial of an interpreted function is evaluated when read
        if any(json.dumps(t).count('Int"') > 1 for t in v["ts"]) or '"binomial"' in names and '"fn"' in names or v["op"] == "list" and any(abs(o) >= 100 for o in objs if o.is_Rational):
            return None
        L.latex2sympy("\\%s{1}{2}" % v["style"])
        try:
            text = L.latex(whole)
        except Exception as e:
            try:
                s.latex(whole)
            except RecursionError:                          # a power of an unevaluated 1
                return None
            return "latex(%s) raised %r" % (l2s.show(whole), e)
        return self.reads(text, v, want, "latex(%s)" % l2s.show(whole)) or self.again(text, v, want)

    def reads(self, text, v, want, what):
        styles = set(re.findall(r"\\([dt]?frac)(?![a-z])", text))
        if styles - {v["style"]}:
            return "%s = %s is not in the style \\%s of the last text parsed" % (what, text, v["style"])
        if v["op"] in ("row", "matrix") and (text.count(r"\begin{bmatrix}") != 1 or re.search(r"\\begin\{(?!bmatrix)", text)):
            return "%s = %s is not written with a bmatrix" % (what, text)
        # x (n^2)^3 reads as an application of x
        if re.search(r"(?<![A-Za-z\\])([A-Za-z]|\\alpha|x_\{\d+\}) \(", text):
            return None
        e, err = l2s.parse(text)
        if err:
            return "%s = %s, of which latex2sympy raised %s" % (what, text, err)
        parts = self.unwrap(v["op"], e)
        if parts is None or len(parts) != len(want):
            return "%s = %s, which parses to another kind of thing: %s" % (what, text, l2s.show(e))
        for p, w in zip(parts, want):
            try:
                got, bad = val(tree(p))
            except Unread as x:
                got, bad = None, str(x)
            if got != w:
                return "%s = %s, which parses to %s, of value %s, specified %s" % (what, text, l2s.show(p), bad or got, w)

    def again(self, text, v, want):
        """The same text through latex2latex, where simplifying it leaves something that can be read."""
        if v["op"] not in ("expr", "row", "matrix") or '"fn"' in json.dumps(v["ts"]) or '"logb"' in json.dumps(v["ts"]):
            return None
        L, s = core.l2s, core.sympy
        e = s.simplify(L.latex2sympy(text).doit().doit())
        parts = self.unwrap(v["op"], e)
        try:
            if parts is None or [val(tree(p))[0] for p in parts] != want:
                return None
        except Unread:
            return None
        try:
            again = L.latex2latex(text)
        except Exception as x:
            return "latex2latex(%r) raised %r" % (text, x)
        return self.reads(again, v, want, "latex2latex(%r)" % text)

    def ascii(self, v, want, objs):
        if v["op"] not in ("expr", "Eq"):
            return None
        whole = self.wrap(v["op"], objs, v["ev"])
        try:
            text = ascii_printer().doprint(whole)
        except Exception as e:
            return "AsciiMathPrinter of %s raised %r" % (l2s.show(whole), e)
        what = "AsciiMathPrinter writes %s as %r" % (l2s.show(whole), text)
        try:
            parts = Ascii(text).whole()
        except Unread as e:
            return "%s, which cannot be read: %s" % (what, e)
        if len(parts) != len(want):
            return "%s, which reads as another kind of thing" % what
        for p, w, o in zip(parts, want, objs):
            got, bad = val(p)
            if got != w:
                return "%s, of value %s, specified %s" % (what, bad or got, w)
            # an unwritten side is the usual one, from the right
            a, b = sides(tree(o)), sides(p)
            if len(a) == 1 and len(b) == 1 and b[0] != a[0] and not (b[0] is None and a[0] in ("+", "+-")):
                return "%s: the limit is from the side %s" % (what, a[0])

    # ---------------------------------------------------------------- styles
    def op_style(self, v):
        L, s = core.l2s, core.sympy
        # bring the style to where the model starts
        L.latex2sympy(r"\frac{1}{2}")
        x, y = s.symbols("x y")
        made = {"x/2": x / 2, "(x+1)/y": (x + 1) / y, "-x/3+y": -x / 3 + y, "[x/2, y/3]": [x / 2, y / 3], "[[x/2, 1], [y, x/y]]": s.Matrix([[x / 2, 1], [y, x / y]]), "x<y/2": x < y / 2}
        for i, h in enumerate(v["h"]):
            where = "after %s" % [(k["o"], k["a"]) for k in v["h"][:i]] if i else "at first"
            try:
                if h["o"] == "parse":
                    L.latex2sympy(h["a"])
                    text = L.latex(x / 2) if i + 1 == len(v["h"]) else None
                elif h["o"] == "print":
                    text = L.latex(made[h["a"]])
                else:
                    text = L.latex2latex(h["a"])
            except Exception as e:
                return "%s of %s, %s, raised %r" % (h["o"], h["a"], where, e)
            if text is not None:
                used = set(re.findall(r"\\([dt]?frac)(?![a-z])", text))
                if used - {h["s"]} or (h["o"] == "print" and not used):
                    return "%s of %s, %s, gives %s, not in the style \\%s" % (h["o"], h["a"], where, text, h["s"])


CHECK = C()
