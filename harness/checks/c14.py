import os, random, signal, sys, threading, time
from .. import core
from ..core import Check, thin
from ..tlc import Model
LIMIT = 1.0
SLACK = 6.0
RAISES = [ValueError("planted"), RuntimeError("planted"), ZeroDivisionError("planted"), RecursionError("planted"), NotImplementedError("planted"),
          TypeError("planted"), AttributeError("planted"), MemoryError("planted"), TimeoutError("planted"), ArithmeticError("planted"), AssertionError("planted"), KeyError("planted"), OverflowError("planted")]


def S(*ways):
    return "{" + ", ".join("{" + ", ".join('"%s"' % x for x in w) + "}" for w in ways) + "}"


E, SI, SA, AB, LA, PY = "expand", "simplify", "sample", "abs", "latex", "python"
SAMPLE = ("sample", "evalf", "abs")
# (answers, ways that certainly establish equality, further ways that may): a way is a set of steps which must all work
PAIRS = [
    ("(x+1)^2", "x^2+2x+1", [(LA, E), (PY, E), (LA, SI), (PY, SI), (LA,) + SAMPLE, (PY,) + SAMPLE], [("expand",), ("simplify",), ("evalf",)]),
    ("\\frac{(a+b)^2}{2}", "\\frac{a^2}{2}+ab+\\frac{b^2}{2}", [(LA, E), (LA, SI), (LA,) + SAMPLE], [("expand",), ("simplify",), ("evalf",)]),
    ("x+\\sin^2(x)+\\cos^2(x)", "x+1", [(LA, SI), (LA,) + SAMPLE], [("simplify",), ("evalf",), ("python", "expand")]),
    ("\\sin(x)^2+\\cos(x)^2", "\\frac{3}{3}", [(LA, SI)], [("simplify",), ("python", "simplify")]),
    ("x+\\sqrt{x}\\sqrt{\\frac{1}{x}}", "x+1", [(LA,) + SAMPLE], [("evalf",)]),
    ("\\sqrt{x^2}+y", "x+y", [(LA,) + SAMPLE], [("evalf",)]),
    ("x+1", "x+2", [], []), ("\\sin(x)", "\\cos(x)", [], []), ("\\sqrt{x}", "x", [], []), ("\\frac{x}{2}", "\\frac{x}{3}", [], []), ("xy+1", "xy-1", [], []),
    ("\\frac{1}{3}", "0.5", [], []), ("\\sqrt{2}", "\\sqrt{3}", [], []), ("\\pi", "e", [], []), ("\\sqrt{3}+1", "\\sqrt{5}", [], []),
    ("\\sqrt{2}+\\sqrt{3}", "3.1463", [(LA, "evalf", "abs")], [("evalf", "abs")]),
    ("\\frac{2}{3}", "0.6667", [(LA, "evalf", "abs"), (PY, LA, "evalf", "abs")], [("evalf", "abs"), ("evalf",)]),
    ("(\\sqrt{2}+1)^2", "3+2\\sqrt{2}", [(LA, E)], [(E,), ("evalf",)]),
    ("\\sqrt{2}", "\\sqrt[2]{2}", [(LA, E)], [(E,), ("evalf",)]),
    ("x+1.0001", "x+1", [(LA, "evalf", AB)], [("evalf", AB)]),
    ("y=(x+1)^2", "f(x)=x^2+2x+1", [(LA, E), (LA, SI)], [("expand",), ("simplify",), ("evalf",)]),
    ("(x+1)^2<0", "x^2+2x+1<0", [(LA, E), (LA, SI), (LA,) + SAMPLE], [("expand",), ("simplify",), ("evalf",)]),
    ("x+1<0", "x+2<0", [], []), ("x^2+y^2=1", "x^2-y^2=1", [], []),
    ("((x+1)^2, y)", "(x^2+2x+1, y)", [(LA, E), (LA, SI), (LA,) + SAMPLE], [("expand",), ("simplify",), ("evalf",)]),
    ("(x+1, y)", "(x+2, y)", [], []),
    ("\\begin{pmatrix}(x+1)^2\\\\ y\\end{pmatrix}", "\\begin{pmatrix}x^2+2x+1\\\\ y\\end{pmatrix}", [(LA, E), (LA, SI), (LA,) + SAMPLE], [("expand",), ("simplify",), ("evalf",)]),
]


class Stuck(Exception):
    pass


class C(Check):
    id = "C14"
    technique = "TLA+ state machine of a comparison's timed steps under planted failures (TLC exhaustive, termination and alarm invariants); its fault plans replayed into is_equiv with failing and stuck sympy steps"
    level_note = "27 pairs, every plan of up to two (thorough: three) failing steps out of six, raising or stuck, always or on the first call, in the main thread and in a worker thread. The code's time limit is shortened to 1 s; faults are planted in sympy and in the generated parser, not in the code under test."
    hang = 120.0

    def models(self, tier, seed):
        q = tier == "quick"
        inv = ["NeverBecauseOfAFailure", "Clean", "ArmedOnlyInside", "Bounded", "DifferentNever", "SureIsPossible"]
        rec = []
        for a, b, sure, more in PAIRS:
            t = lambda x: '"' + x.replace("\\", "\\\\") + '"'
            rec.append("[a |-> %s, b |-> %s, sure |-> %s, maybe |-> %s]" % (t(a), t(b), S(*sure), S(*(sure + more))))
        c = dict(Pairs="<<" + ", ".join(rec) + ">>", MaxFaults=2, Kinds='{"raise", "stuck"}', Scopes='{"all", "first"}', Places='{"main"}')
        some = dict(c, Pairs="<<" + ", ".join(rec[:8:2]) + ">>", MaxFaults=1, Places='{"main"}')
        ms = [Model("Faults", c, spec="Spec", invs=inv, label="Faults two failures"),
              Model("Faults", dict(c, MaxFaults=1, Places='{"worker"}'), invs=inv, label="Faults in a worker thread"),
              Model("Faults", some, spec="Spec", props=["Terminates"], emit=False, label="Faults termination")]
        if not q:
            ms.append(Model("Faults", dict(c, MaxFaults=3, Places='{"main", "worker"}'), invs=inv, label="Faults three failures", timeout=3000))
        return ms

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        # the machine is nondeterministic; a plan is one case
        return thin([v for r in results for v in r.vectors], 3 if q else 60, seed, group=lambda v: (v["a"], v["exp"], len(v["plan"]), v["place"]))

    def prepare(self):
        super().prepare()
        self.limit(LIMIT)
        self.install()

    def limit(self, seconds):
        self.seconds = seconds
        for name, mod in list(sys.modules.items()):
            if name.startswith("math_evaluation") and hasattr(mod, "TIMEOUT_SECONDS"):
                mod.TIMEOUT_SECONDS = seconds

    def install(self):
        """Put a switchable fault in front of what the steps call."""
        import sympy
        from sympy.core.expr import Expr
        from sympy.core.evalf import EvalfMixin
        from sympy.parsing import sympy_parser
        self.plan, self.count, self.fired, self.stuck, self.exc = {}, {}, set(), 0, RAISES[0]
        me = self
        inside = threading.local()
        prefix = os.path.join(core.REPO, "math_evaluation") + os.sep

        def from_repo():
            f = sys._getframe(2)
            while f and f.f_code.co_filename.endswith(("sympy/core/function.py", "sympy/core/evalf.py")) and f.f_code.co_name in ("expand", "N"):
                f = f.f_back
            return bool(f) and f.f_code.co_filename.startswith(prefix)

        def hit(step):
            p = me.plan.get(step)
            n = me.count[step] = me.count.get(step, 0) + 1
            if p is None or (p["at"] == "first" and n > 1):
                return
            me.fired.add(step)
            if p["m"] == "raise":
                raise type(me.exc)(*me.exc.args)
            me.stuck += 1
            end = time.time() + 60
            while time.time() < end:
                time.sleep(0.005)

        def wrap(owner, name, step, everywhere=False):
            real = getattr(owner, name)

            def wrapped(*a, **k):
                if step in me.plan and (everywhere or from_repo()):
                    hit(step)
                return real(*a, **k)
            wrapped.__name__ = name
            setattr(owner, name, wrapped)

        wrap(Expr, "expand", "expand")
        wrap(Expr, "evalf", "evalf")
        wrap(Expr, "n", "evalf")
        wrap(Expr, "__abs__", "abs")
        wrap(sympy, "simplify", "simplify")
        wrap(Expr, "simplify", "simplify")
        import latex2sympy.latex2sympy2 as l
        wrap(l.PSParser, "math", "latex", True)
        wrap(sympy_parser, "eval_expr", "python", True)

    def op_fault(self, v):
        self.limit(LIMIT)
        out = self.attempt(v)
        if out is not None:
            # a busy machine can make a sound step miss a short limit
            self.limit(4 * LIMIT)
            out = self.attempt(v)
        return out

    def attempt(self, v):
        plan = v["plan"] or {}
        self.count, self.fired, self.stuck = {}, set(), 0
        self.exc = RAISES[random.Random(core.key_of(v)).randrange(len(RAISES))]
        before = lambda *_: None
        signal.signal(signal.SIGALRM, before)
        box = {}

        def go():
            try:
                box["out"] = core.math_eval.is_equiv(v["a"], v["b"])
            except BaseException as e:
                box["exc"] = e
        t = time.time()
        self.plan = plan
        try:
            if v["place"] == "main":
                go()
            else:
                th = threading.Thread(target=go)
                th.start()
                th.join(90)
        finally:
            self.plan = {}
        dt = time.time() - t
        what = "is_equiv(%r, %r) in the %s thread with %s" % (v["a"], v["b"], v["place"], plan)
        if "exc" in box:
            return "%s raised %r" % (what, box["exc"])
        if "out" not in box:
            return what + " did not return"
        if not isinstance(box["out"], bool):
            return "%s returned %r" % (what, box["out"])
        if signal.getitimer(signal.ITIMER_REAL) != (0.0, 0.0):
            return what + " left an alarm pending"
        if signal.getsignal(signal.SIGALRM) is not before:
            return what + " changed the signal handler"
        if dt > self.seconds * self.stuck + SLACK:
            return "%s took %.1f s with %d stuck steps of %.1f s" % (what, dt, self.stuck, self.seconds)
        if self.fired != {s for s in plan if s in self.fired}:
            return
        if v["exp"] == "yes" and box["out"] is not True:
            return "%s was rejected although a method that worked establishes equality" % what
        if v["exp"] == "no" and self.fired == set(plan) and box["out"] is not False:
            return "%s was accepted although no method that worked establishes equality" % what


CHECK = C()
