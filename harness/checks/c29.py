import builtins, io, os, random, re, shutil, signal, sys, tempfile, threading
from .. import core
from ..core import Check, thin
from ..tlc import Model

# what is stopped and recorded while an answer is compared
STOP = {"os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.startfile", "subprocess.Popen", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown",
        "os.kill", "os.killpg", "os.putenv", "os.unsetenv", "os.chdir", "shutil.rmtree", "shutil.move", "shutil.copyfile", "socket.connect", "socket.bind", "builtins.input", "builtins.breakpoint", "ctypes.dlopen", "webbrowser.open", "pty.spawn", "tempfile.mkstemp", "tempfile.mkdtemp", "sqlite3.connect"}
WATCHED = {"wsgiref", "xdr", "xmlrpc", "subprocess", "turtle", "pydoc", "code", "pdb"}
seen, active = [], False


def hook(event, args):
    if not active:
        return
    what = None
    if event in STOP:
        what = event
    elif event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        flags = flags if isinstance(flags, int) else 0
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) and str(path) != os.devnull:
            what = "open %r for writing" % (path,)
    elif event == "import" and str(args[0]).split(".")[0] in WATCHED:
        what = "import %s" % args[0]
    if what:
        seen.append(what)
        raise PermissionError("stopped by the check: " + what)


class C(Check):
    id = "C29"
    technique = "TLA+ model of the world outside a comparison, with answers written as code at every nesting position (TLC exhaustive and simulated); the real functions run on them under an audit hook that records and stops every effect"
    level_note = "Every piece of code in every context once exhaustively, nested contexts and all entry points by simulation; effects are observed through the interpreter's audit events, output, the names of the modules concerned and process settings."
    ready = False

    def models(self, tier, seed):
        q = tier == "quick"
        calls = '{"is_equiv", "are_equal_under_sympy"}'
        every = '{"is_equiv", "are_equal_under_sympy", "string_normalize", "is_equiv_type", "history"}'
        one = dict(MaxDepth=1, Codes="{}", Ctxs="{}", Calls=calls, Random=False)
        deep = dict(MaxDepth=3, Codes="{}", Ctxs="{}", Calls=every, Random=True)
        return [Model("Effects", one, invs=["Untouched"], label="Effects one context"), Model("Effects", deep, mode="sim", invs=["Untouched"], num=1500 if q else 30000, depth=8, label="Effects nested", timeout=2000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        g = lambda v: v["why"]
        direct = [v for v in results[0].vectors if v["b"] == "1"]
        grid = [v for v in results[0].vectors if v["b"].startswith("\\begin") and (v["a"].startswith("[[") or v["a"].startswith("(("))]
        return thin(grid, 2 if q else 10 ** 6, seed, group=g) + thin(direct, 14 if q else 10 ** 6, seed, group=g) + thin([v for v in results[0].vectors if v["b"] != "1"], 3 if q else 10 ** 6, seed, group=g) + thin(results[1].vectors, 30 if q else 1000, seed, group=g)

    # ------------------------------------------------------------- monitor
    def arm(self):
        if C.ready:
            return
        C.ready = True
        import sympy.plotting                        # noqa: what is loaded late is not an effect
        self.run("is_equiv", "x+1", "\\frac{x^2-1}{x-1}")
        self.run("are_equal_under_sympy", "(1,2)", "[1,2")
        C.main = self.state()
        sys.addaudithook(hook)

    def run(self, call, a, b):
        m = core.math_eval
        if call == "string_normalize":
            return m.string_normalize(a)
        if call == "is_equiv_type":
            for t in ("Numeric", "Set", "Vector", "Complex", "Function"):
                try:
                    m.is_equiv_type(a, b, t)
                except Exception:
                    pass
            return
        return getattr(m, "is_equiv" if call == "history" else call)(a, b)

    def state(self):
        """Names and settings a comparison has no business with."""
        import __main__, sympy, mpmath
        import math_evaluation.core.latex_parser as lp
        from sympy.core.parameters import global_parameters
        names = {m.__name__: {k: id(v) for k, v in vars(m).items() if k != "__warningregistry__"} for m in (builtins, __main__, sympy, core.math_eval, sys.modules["math_evaluation.core"])}
        names["latex_parser"] = set(vars(lp))
        for k, v in vars(lp).items():
            if isinstance(v, dict) and not k.startswith("__"):
                names[k] = {str(n): id(x) for n, x in v.items()}
        return dict(names=names, environ=dict(os.environ), cwd=os.getcwd(), limit=sys.getrecursionlimit(), random=random.getstate(), alarm=signal.getsignal(signal.SIGALRM), precision=mpmath.mp.prec, evaluate=global_parameters.evaluate,
                    displayhook=sys.displayhook, threads=threading.active_count(), children=self.children())

    def children(self):
        with open("/proc/self/task/%d/children" % os.getpid()) as h:
            return h.read()

    def watch(self, thunk):
        """The effects of a call, run in a scratch folder as its own, with destructive ones stopped."""
        global active, seen
        seen = []
        home, out = os.getcwd(), io.StringIO()
        scratch = tempfile.mkdtemp(prefix="c29")
        open(os.path.join(scratch, "victim"), "w").close()
        os.chdir(scratch)
        before, old = self.state(), (sys.stdout, sys.stdin)
        sys.stdout, sys.stdin = out, io.StringIO("")
        err = None
        try:
            active = True
            try:
                thunk()
            except BaseException as e:
                err = e
            finally:
                active = False
            sys.stdout, sys.stdin = old
            found = list(seen)
            after = self.state()
            for k in before:
                if before[k] != after[k]:
                    d = ""
                    if k == "names":
                        d = ": " + ", ".join("%s.%s" % (m, n) for m in after[k] for n in set(before[k].get(m, ())) ^ set(after[k][m]))
                    found.append("%s changed%s" % (k, d))
            # the comparison's own diagnostics are not the answer's doing
            said = [l for l in out.getvalue().splitlines() if l.strip() and not re.match(r"\s*(WARNING|\w+(Error|Exception)\b)", l)]
            if said:
                found.append("output %r" % said[:3])
            if sorted(os.listdir(scratch)) != ["victim"]:
                found.append("files are now %s" % sorted(os.listdir(scratch)))
            if isinstance(err, (SystemExit, KeyboardInterrupt)):
                found.append("raised %r" % err)
            return found
        finally:
            sys.stdout, sys.stdin = old
            os.chdir(home)
            shutil.rmtree(scratch)

    def op_compare(self, v):
        self.arm()
        a, b = (v["a"], v["b"]) if v["left"] else (v["b"], v["a"])
        found = self.watch(lambda: self.run(v["call"], a, b))
        if found:
            return "%s(%r, %r) has effects outside: %s" % (v["call"], a, b, "; ".join(found))
        if v["call"] == "history":
            for x, y, want in (("pi", "3", False), ("sin(x)", "cos(x)", False), ("sqrt(4)", "2", True)):
                if core.math_eval.is_equiv(x, y) is not want:
                    return "after is_equiv(%r, %r), is_equiv(%r, %r) = %r" % (a, b, x, y, not want)


CHECK = C()
