import contextlib, io, json, os, random, re, runpy, shutil, sys, tempfile
from .. import core
from ..core import Check, thin
from ..tlc import Model

CLASSES = [["\\frac{1}{2}", "0.5", "1/2", "\\dfrac12"], ["(1,2)", "\\left(1, 2\\right)", "(1,\\frac{4}{2})"], ["\\{1,2,3\\}", "\\{3, 2, 1\\}"], ["x+1", "1+x"],
           ["\\begin{pmatrix} 1 & 2 \\\\ 3 & 4 \\end{pmatrix}", "\\begin{bmatrix}1&2\\\\3&4\\end{bmatrix}"], ["\\text{Monday}", "Monday"], ["(2,1)"], ["\\sqrt{3}", "3^{\\frac{1}{2}}"],
           ["-\\frac{1}{2}", "-0.5"], ["[1,2)", "\\left[1,2\\right)"], ["12\\%", "0.12"], ["2+3i", "3i+2"], ["7", "7.0", "\\frac{14}{2}"]]
ORDERED = [("0", "0.0008", True), ("0.0008", "0", False), ("1", "0.9985", True), ("0.9985", "1", False)]


def text(x):
    return '"' + x.replace("\\", "\\\\") + '"'


class C(Check):
    id = "C27"
    technique = "TLA+ specification of accepted alternatives and of the benchmark run (TLC exhaustive over the alternatives, simulated for benchmark files); replayed into is_equiv_MATH and the benchmark script on files in a scratch directory"
    level_note = "All lists of up to 2 (thorough: 3) of 13 answers, spellings drawn, and lists of up to 12 by simulation; benchmark files of up to 5 (thorough: 9) problems with up to 3 boxes. A box that is never closed and repeated questions are not covered."
    hang = 120

    def models(self, tier, seed):
        q = tier == "quick"
        c = dict(Classes="<<" + ", ".join("<<" + ", ".join(map(text, k)) + ">>" for k in CLASSES) + ">>",
                 Ordered="<<" + ", ".join("<<%s, %s, %s>>" % (text(a), text(b), "TRUE" if e else "FALSE") for a, b, e in ORDERED) + ">>", MaxProblems=5 if q else 9)
        inv = ["Distributes", "Counted"]
        return [Model("Alts", dict(c, Mode='"alts"', MinAlts=0, MaxAlts=2 if q else 3), invs=inv, label="Alts lists", timeout=2000),
                Model("Alts", dict(c, Mode='"bench"', MinAlts=0, MaxAlts=3), mode="sim", invs=inv, num=60 if q else 2000, depth=80, label="Alts benchmarks", timeout=2000),
                Model("Alts", dict(c, Mode='"alts"', MinAlts=3, MaxAlts=12), mode="sim", invs=inv, num=60 if q else 2000, depth=14, label="Alts long lists", timeout=2000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        g = lambda v: (len(v["gs"]), v["single"], v["exp"])
        return thin(results[0].vectors, 150 if q else 4000, seed, group=g) + thin(results[1].vectors, 120 if q else 3000, seed, group=lambda v: "") + thin(results[2].vectors, 16 if q else 400, seed, group=g)

    def prepare(self):
        super().prepare()
        global demo
        import demo

    def op_alts(self, v):
        for verbose in (False, True):
            g = v["gs"][0] if v["single"] else list(v["gs"])
            random.seed(1)
            with contextlib.redirect_stdout(io.StringIO()):
                out = demo.is_equiv_MATH(g, v["p"], verbose) if verbose else demo.is_equiv_MATH(g, v["p"])
            if out is not v["exp"]:
                return "is_equiv_MATH(%r, %r, verbose=%s) = %r, specified %r" % (g, v["p"], verbose, out, v["exp"])
            if not v["single"] and g != v["gs"]:
                return "the list of alternatives was changed to %r" % (g,)

    def op_bench(self, v):
        rnd = random.Random(v["shuffle"])
        truths, outputs = [], []
        for i, p in enumerate(v["ps"]):
            question = "Problem %d: find $x$." % i
            truths.append({"index": i, "question": question, "answer": p["gs"] if p["list"] else p["gs"][0]})
            before = ["```python\nprint(%d)\n```" % i] + [o["text"] for o in v["old"] if o["p"] == i + 1]
            # gt and pred of the file are not to be used
            outputs.append({"idx": i, "question": question, "gt": rnd.choice(["0", p["gs"][0]]), "pred": [rnd.choice(["0", p["gs"][0]])], "code": before + [p["text"]]})
        rnd.shuffle(truths)
        d = tempfile.mkdtemp(prefix="c27.")
        here = os.getcwd()
        try:
            os.makedirs(os.path.join(d, "w/data"))
            with open(os.path.join(d, "tora_code_34b_math.jsonl"), "w") as h:
                h.writelines(json.dumps(o) + "\n" for o in outputs)
            with open(os.path.join(d, "w/data/math_testset_annotation.json"), "w") as h:
                json.dump(truths, h)
            os.chdir(os.path.join(d, "w"))
            out = io.StringIO()
            random.seed(1)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(os.path.join(core.REPO, "example_tora_eval.py"), run_name="__main__")
            nums = re.findall(r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", out.getvalue())
            want = v["right"] / len(v["ps"])
            if not nums or float(nums[-1]) != want:
                return "the benchmark script reported %r, specified %d of %d" % (out.getvalue()[-200:], v["right"], len(v["ps"]))
        except BaseException as e:
            return "the benchmark script ended with %s: %s" % (type(e).__name__, e)
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)


CHECK = C()
