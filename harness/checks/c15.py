import json, os, random, subprocess, sys, tempfile, threading, time
from .. import core
from ..core import Check
from ..tlc import Model

# answers whose verdict the other specifications determine
PAIRS = [
    ("\\frac{1}{2}", "0.5", True), ("\\dfrac{1}{3}", "0.334", False), ("\\tfrac{2}{4}", "\\frac12", True), ("AB", "BA", True), ("A+B", "B+A", True), ("A^2", "AA", True),
    ("ab-ba", "0", True), ("x+\\sqrt{x}\\sqrt{\\frac{1}{x}}", "x+1", True), ("\\sqrt{x}", "x", False), ("\\sin(x)", "\\cos(x)", False), ("\\sqrt{x^2}+y", "x+y", True),
    ("e^x", "2^x", False), ("\\log(x)+\\log(y)", "\\log(xy)", True), ("\\sqrt{x}+\\sqrt{y}", "\\sqrt{x+y}", False), ("x^{\\frac{1}{2}}y", "\\sqrt{x}y", True),
    ("\\sqrt{x}\\sqrt{y}", "\\sqrt{xy}", True), ("2^x", "x^2", False), ("\\ln(x^2)", "2\\ln(x)", True), ("x+1", "x+2", False), ("(x+1)^2", "x^2+2x+1", True), ("\\frac{x}{y}", "\\frac{y}{x}", False),
    ("x=1,x=2", "x=2,x=1", True), ("(1,2)", "(2,1)", False), ("{1,2,3}", "{3,2,1}", True), ("[1,2)", "(1,2]", False), ("(0,1)\\cup(1,2)", "(1,2)\\cup(0,1)", True),
    ("\\begin{pmatrix}1&2\\\\3&4\\end{pmatrix}", "\\begin{bmatrix}1&2\\\\3&4\\end{bmatrix}", True), ("\\begin{pmatrix}1&2\\\\3&4\\end{pmatrix}", "\\begin{pmatrix}1&3\\\\2&4\\end{pmatrix}", False),
    ("A\\in\\mathbb{R}^{2\\times 3}", "7", False), ("B\\in R^{3\\times 2}", "7", False), ("a\\in R^{2\\times 2}", "5", False), ("x\\in[1,2]", "[1,2]", True),
    ("30^\\circ", "\\frac{\\pi}{6}", True), ("50\\%", "0.5", True), ("10\\%", "11", False), ("101_2", "5", True), ("2+3i", "3i+2", True), ("2+3i", "2-3i", False), ("x<1", "1>x", True), ("x<1", "x\\leq 1", False),
    ("y=2x", "2x", True), ("\\variable{a}+1", "a+2", False), ("\\frac{", "3", False), ("(1,", "x", False), ("1,000", "1000", True), ("\\sqrt{2}", "1.4142", True), ("\\pi", "3.2", False), ("ab", "\\frac{a}{b}", False),
    ("0.9985", "1", False), ("1", "0.9985", True), ("0", "0.0008", True), ("0.0008", "0", False), ("y=0.9985", "1", False), ("1", "y=0.9985", True), ("(1,2)", "[1,2]", False), ("[1,2]", "1,2", False), ("10", "10\\%", True), ("0.1", "10\\%", True), ("0.1", "10", False),
    # answers that differ in a blank or a bracket only
    ("8.5", "8 1/2", True), ("8.5", "81/2", False), ("40.5", "81/2", True), ("40.5", "8 1/2", False), ("(1,2]", "[1,2]", False), ("[1,2]", "(1,2)", False),
    ("x_1+x_2", "x_2+x_1", True), ("|x|+y", "y+|x|", True), ("\\int_0^1 x dx", "0.5", True), ("\\sum_{n=1}^{4} n", "10", True), ("\\begin{vmatrix}1&2\\\\3&4\\end{vmatrix}", "-2", None),
]
PAIRS = [p for p in PAIRS if p[2] is not None]
PARSES = [("\\variable{a}+x", "a", True), ("\\variable{x}^2", "x", True), ("\\frac{\\variable{a}", "a", False), ("a+b+x", "x", True), ("x+", "a", False), ("\\tfrac{\\variable{b}}{2}", "", True),
          ("AB", "", True), ("x=2", "x", True), ("\\begin{matrix}1&2\\\\3&4\\end{matrix}", "", True), ("\\int x dx", "a", True), ("f(x)=2", "", True), ("@", "x", False)]

ONE = r"""
import json, sys, random, io, contextlib
sys.path.insert(0, %r)
pairs = json.load(sys.stdin)
random.seed(int(sys.argv[1]))
shift = int(sys.argv[2])
import math_evaluation, sympy
if shift:
    Real = random.Random
    class Shifted(Real):
        def __init__(self, x=None):
            super().__init__("%%r %%d" %% (x, shift))
    random.Random = Shifted
random.Random(int(sys.argv[1])).shuffle(pairs)
out = []
for a, b, e in pairs:
    with contextlib.redirect_stdout(io.StringIO()):
        r = math_evaluation.is_equiv(a, b)
    if r is not e:
        out.append([a, b, e, repr(r)])
json.dump(out, sys.stdout)
""" % core.REPO


def text(x):
    return '"' + x.replace("\\", "\\\\") + '"'


class C(Check):
    id = "C15"
    technique = "TLA+ model of a process's parser and comparison state over histories of comparisons, direct parser calls and threads (TLC simulated, noninterference invariants); histories replayed into a fresh process each, plus the same answers under several hash and random seeds"
    level_note = "Histories of up to 12 (thorough: 24) operations over 70 answer pairs, 12 direct parser calls and 3 threads, interleaved at the start and end of comparisons (finer interleavings are left to the interpreter's scheduler); hash seeds and random draws in separate processes."
    hang = 200.0

    def models(self, tier, seed):
        q = tier == "quick"
        pairs = "<<" + ", ".join("[a |-> %s, b |-> %s, exp |-> %s]" % (text(a), text(b), "TRUE" if e else "FALSE") for a, b, e in PAIRS) + ">>"
        parses = "<<" + ", ".join("[t |-> %s, v |-> %s, ok |-> %s]" % (text(t), text(v), "TRUE" if ok else "FALSE") for t, v, ok in PARSES) + ">>"
        c = dict(Pairs=pairs, Parses=parses, Threads=3, MaxOps=16)
        inv = ["Untouched", "OneVerdict", "Quiet"]
        return [Model("Histories", c, mode="sim", invs=inv, num=120 if q else 3000, depth=60, label="Histories with threads"),
                Model("Histories", dict(c, Threads=1, MaxOps=12 if q else 24), mode="sim", invs=inv, num=60 if q else 2000, depth=60, label="Histories of one thread")]

    def prepare(self):
        super().prepare()
        for t in ("\\frac{x}{2}+1", "x=1", "\\sqrt{x}y", "(a+b)^2"):
            core.l2s.latex2sympy(t)      # fills the tables of the generated parser

    def op_history(self, v):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                import ctypes
                ctypes.CDLL(None).prctl(1, 9)
                out = self.history(v["ops"])
            except BaseException as e:
                out = "harness exception %r" % e
            os.write(w, json.dumps(out)[:60000].encode())
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            part = os.read(r, 65536)
            if not part:
                break
            data += part
        os.close(r)
        os.waitpid(pid, 0)
        return json.loads(data) if data else "the process ended without an answer"

    def history(self, ops):
        said, faults = [], []
        running = {}

        def compare(o):
            out = core.math_eval.is_equiv(o["a"], o["b"])
            if out is not o["exp"]:
                faults.append("is_equiv(%r, %r) = %r, specified %r, in thread %d" % (o["a"], o["b"], out, o["exp"], o["t"]))

        starts = {}
        for n, o in enumerate(ops):
            if o["k"] == "start":
                alone = n + 1 < len(ops) and ops[n + 1]["k"] == "end" and ops[n + 1]["t"] == o["t"]
                if o["t"] == 1:
                    compare(o)          # the main thread runs it here; the others are still under way
                else:
                    th = threading.Thread(target=compare, args=(o,))
                    th.start()
                    running[o["t"]] = th
            elif o["k"] == "end":
                if o["t"] != 1:
                    running.pop(o["t"]).join(120)
            elif o["k"] == "parse":
                try:
                    core.l2s.latex2sympy(o["a"], {o["b"]: core.sympy.Integer(5)} if o["b"] else {})
                except Exception:
                    pass
            elif o["k"] == "seed":
                random.seed(o["i"])
            said.append(o["k"])
            if faults:
                break
        for th in running.values():
            th.join(120)
        if faults:
            return "%s after %s" % (faults[0], [(o["k"], o["a"], o["b"]) for o in ops[:len(said) - 1]])

    def extra(self, tier, seed):
        fails, runs = [], 0
        n = 6 if tier == "quick" else 60
        data = json.dumps(PAIRS).encode()
        procs = []
        for k in range(n):
            env = dict(os.environ, PYTHONHASHSEED=str((seed * 97 + k * 7919) % 4294967295), PYTHONDONTWRITEBYTECODE="1")
            procs.append((k, env["PYTHONHASHSEED"], env))
        for i in range(0, n, 6):
            group = [(k, h, subprocess.Popen(["/opt/venv/bin/python", "-W", "ignore", "-c", ONE, str(seed * 31 + k), str(k)], env=env, stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd="/")) for k, h, env in procs[i:i + 6]]
            for k, h, p in group:
                try:
                    out, _ = p.communicate(data, timeout=300)
                    bad = json.loads(out.decode() or "null")
                except subprocess.TimeoutExpired:
                    p.kill()
                    bad = [["", "", None, "no answer in 300 s"]]
                runs += 1
                if bad is None:
                    bad = [["", "", None, "the process failed"]]
                for a, b, e, r in bad[:2]:
                    fails.append(({"op": "seeded", "hash": h, "k": k, "a": a, "b": b, "exp": e, "seed": seed},
                                  "is_equiv(%r, %r) = %s, specified %r, under PYTHONHASHSEED=%s and random seed %d" % (a, b, r, e, h, seed * 31 + k)))
        return fails, {"hash_seed_processes": runs}

    def op_seeded(self, v):
        env = dict(os.environ, PYTHONHASHSEED=v["hash"])
        p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", ONE, str(v["seed"] * 31 + v["k"]), str(v["k"])], env=env, input=json.dumps(PAIRS).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
        bad = json.loads(p.stdout.decode() or "null")
        return None if bad == [] else "under PYTHONHASHSEED=%s: %r" % (v["hash"], bad)


CHECK = C()
