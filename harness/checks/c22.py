import os, sys, threading
from fractions import Fraction as F
from .. import core, l2s
from ..core import Check, thin
from ..tlc import Model
from .c18 import h

NAMES = ["a", "b", "x", "x_1", "\\alpha ", "7"]
FREE = [F(7, 2), F(-4), F(11), F(6), F(5), F(-3)]


class Gate(dict):
    """Values whose first look-up waits, so that the call stays in progress."""
    go = asked = None

    def wait(self):
        if self.go is not None and not self.asked.is_set():
            self.asked.set()
            self.go.wait(20)

    def __contains__(self, k):
        self.wait()
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        self.wait()
        return dict.__getitem__(self, k)

    def get(self, *a):
        self.wait()
        return dict.get(self, *a)


class C(Check):
    id = "C22"
    technique = "TLA+ model of the parser's settings over histories of overlapping successful and failing calls (TLC exhaustive over one call in every construct, simulated for histories); histories replayed into the real parser with threads held inside their calls, values and assumptions checked exactly"
    level_note = "Every template of 38 with every leaf and 8 sets of values; histories of 10 (thorough: 24) operations with 3 threads; a thread is held where it first looks a value up, finer interleavings are left to the interpreter."
    hang = 120

    def models(self, tier, seed):
        q = tier == "quick"
        return [Model("Settings", dict(Mode='"each"', Threads=1, MaxOps=1), label="Settings each", timeout=2000),
                Model("Settings", dict(Mode='"history"', Threads=3, MaxOps=10 if q else 24), mode="sim", invs=["Given"], num=250 if q else 5000, depth=70, label="Settings histories", timeout=2000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        one = lambda v: ""
        return thin(results[0].vectors, 1100 if q else 6000, seed, group=one) + thin(results[1].vectors, 260 if q else 8000, seed, group=one)

    def names(self):
        """The symbols that variables without a value become; they are no ordinary letters."""
        out = {}
        for n, f in zip(NAMES, FREE):
            s = core.l2s.latex2sympy("\\variable{%s}" % n)
            if not isinstance(s, core.sympy.Symbol) or s.name in out or s.name in ("a", "b", "x", "x_1", "alpha", "7", "w", "y"):
                raise l2s.NoValue("\\variable{%s} parses to %s" % (n, l2s.show(s)))
            out[s.name] = (f.numerator, f.denominator)
        return out

    def values(self, spec, cls=dict):
        s = core.sympy
        make = {"int": lambda n, d: n, "rat": lambda n, d: s.Rational(n, d), "frac": F, "str": lambda n, d: "%d/%d" % (n, d), "w": lambda n, d: s.Symbol("w")}
        return cls((x["name"], make[x["k"]](x["n"], x["d"])) for x in spec if x["k"] != "no")

    def judge(self, x, e, err, env):
        s = core.sympy
        what = "latex2sympy(%r, %r) under real=%s" % (x["text"], {v["name"]: "%s %s/%s" % (v["k"], v["n"], v["d"]) for v in x["vals"] if v["k"] != "no"}, x["real"])
        if err:
            return "%s raised %s" % (what, err)
        want = [F(*r) for r in x["res"]]
        real = {"unset": None, "true": True, "false": False}[x["real"]]
        if x["kind"] == "num":
            parts = [e]
        elif x["kind"] == "vec":
            parts = list(e)
        else:
            cls = {"eq": s.Eq, "lt": s.StrictLessThan, "ge": s.GreaterThan, "ne": s.Ne}[x["kind"]]
            if not isinstance(e, cls):
                return "%s = %s, specified a relation %s" % (what, l2s.show(e), x["kind"])
            parts = [e.lhs, e.rhs]
        for p in parts:
            for a in p.atoms(s.Symbol):
                if a.name not in ("w", "+", "-", "+-") and a.assumptions0.get("real") is not real:
                    return "%s = %s: the symbol %s is assumed real=%s" % (what, l2s.show(e), a, a.assumptions0.get("real"))
        if len(parts) != len(want):
            return "%s = %s" % (what, l2s.show(e))
        for p, w in zip(parts, want):
            try:
                d = p.doit() if p.has(s.Integral, s.Sum, s.Product, s.Limit, s.Derivative, s.Subs) else p
            except Exception as ex:
                return "%s = %s cannot be evaluated: %r" % (what, l2s.show(e), ex)
            got, err = l2s.exact(d, env)
            if err or got != w:
                return "%s = %s, of value %s, specified %s" % (what, l2s.show(e), err or got, w)

    def fresh(self):
        L = core.l2s
        L.set_real(None)
        L.set_variances({})
        return dict(dict(x=(3, 1), y=(-2, 1), a=(8, 1), w=(13, 1)), f=lambda a: h(40, a), sin=lambda a: h(1, a), cos=lambda a: h(2, a), tan=lambda a: h(3, a), **self.names())

    def op_call(self, v):
        x = v["x"]
        env = self.fresh()
        core.l2s.set_real({"unset": None, "true": True, "false": False}[x["real"]])
        given = self.values(x["vals"])
        before = dict(given)
        e, err = l2s.parse(x["text"], given)
        core.l2s.set_real(None)
        if given != before:
            return "the values given were changed to %r" % (given,)
        return self.judge(x, e, err, env)

    def op_history(self, v):
        L, s = core.l2s, core.sympy
        env = self.fresh()
        running = {}
        for i, x in enumerate(v["ops"]):
            where = "after %s: " % ", ".join("%s %s" % (o["k"], o["text"] or o["real"] or o["shape"] or o["t"]) for o in v["ops"][:i])
            if x["k"] == "real":
                L.set_real({"unset": None, "true": True, "false": False}[x["real"]])
            elif x["k"] == "declare":
                m, n = x["shape"].split("x")
                text = "A \\in \\mathbb{R}^{%s \\times %s}" % (m, n)
                try:
                    L.latex2sympy(text)
                except Exception as ex:
                    return where + "%s raised %r" % (text, ex)
            elif x["k"] == "set":
                L.set_variances({} if x["shape"] == "none" else {s.Symbol("A"): s.Matrix([[1, 2], [3, 4]])})
            elif x["k"] == "ask":
                e, err = l2s.parse("A")
                shape = "none" if isinstance(e, s.Symbol) else "%sx%s" % tuple(e.shape) if getattr(e, "is_Matrix", False) else repr(e)
                if err or shape != x["shape"]:
                    return where + "A is %s (%s), specified %s" % (err or l2s.show(e), shape, x["shape"])
            elif x["k"] == "fail":
                e, err = l2s.parse(x["text"], self.values(x["vals"]))
                if not err:
                    return where + "latex2sympy(%r) = %s, specified: refused" % (x["text"], l2s.show(e))
            elif x["k"] == "begin":
                g = self.values(x["vals"], Gate)
                g.asked, g.go = threading.Event(), threading.Event()
                res = {}

                def work(x=x, g=g, res=res):
                    res["r"] = l2s.parse(x["text"], g) if len(g) or i % 2 else l2s.parse(x["text"])
                    g.asked.set()
                th = threading.Thread(target=work, daemon=True)
                th.start()
                g.asked.wait(30)
                running[x["t"]] = (th, g, res, x, where)
            else:
                th, g, res, b, w = running.pop(x["t"])
                g.go.set()
                th.join(60)
                bad = self.judge(b, *res.get("r", (None, "no answer")), env)
                if bad:
                    return where + bad
        L.set_real(None)
        L.set_variances({})


CHECK = C()
