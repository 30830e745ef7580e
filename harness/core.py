"""Common driver: TLC on the specification -> vectors -> the real code -> verdict, evidence, replay."""
import hashlib, json, os, random, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
if sys.path[0:1] != [REPO]:
    sys.path.insert(0, REPO)
from . import tlc, pool


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s key=" % pid):
                key, _, what = line.split("key=", 1)[1].partition(" :: ")
                out[key] = what
    return out


def key_of(vec):
    if "key" in vec:
        return vec["key"]
    return json.dumps({k: v for k, v in vec.items() if k not in ("why", "exp", "tr")}, sort_keys=True, ensure_ascii=True)


def thin(vs, cap, seed, group=lambda v: (v.get("op"), v.get("why"), v.get("exp"))):
    """At most cap cases of each group, chosen by the seed; every group stays represented."""
    rnd = random.Random(seed)
    groups = {}
    for v in vs:
        groups.setdefault(repr(group(v)), []).append(v)
    out = []
    for k in sorted(groups):
        g = sorted(groups[k], key=key_of)
        rnd.shuffle(g)
        out += g[:cap]
    return out


def cover(vs, keys, cap, seed):
    """Enough cases (chosen by the seed) to have every key `cap` times, as far as the cases allow."""
    vs = sorted(vs, key=key_of)
    random.Random(seed).shuffle(vs)
    seen, out = {}, []
    for v in vs:
        ks = set(keys(v))
        if any(seen.get(k, 0) < cap for k in ks):
            out.append(v)
            for k in ks:
                seen[k] = seen.get(k, 0) + 1
    return out


class Ops:
    """Operations a specification may order on the real code; each returns None or what differs."""

    def load(self):
        global math_eval, l2s, sympy
        import sympy
        import math_evaluation as math_eval
        import latex2sympy.latex2sympy2 as l2s

    def op_eq(self, v):
        """is_equiv(a, b) is exactly the specified verdict"""
        random.seed(key_of(v))
        out = math_eval.is_equiv(v["a"], v["b"])
        if out is not v["exp"]:
            return "is_equiv(%r, %r) = %r, specified %r (%s)" % (v["a"], v["b"], out, v["exp"], v.get("why"))

    def op_type(self, v):
        random.seed(key_of(v))
        out = math_eval.is_equiv_type(v["a"], v["b"], None if v["t"] == "<none>" else v["t"])
        if out is not v["exp"]:
            return "is_equiv_type(%r, %r, %r) = %r, specified %r (%s)" % (v["a"], v["b"], v["t"], out, v["exp"], v.get("why"))


class Check(Ops):
    """A property's check.  Subclasses give models(tier, seed) and op functions op_<name>(vec)."""
    id = None
    level = "model_checking"
    technique = ""
    level_note = ""
    hang = 120.0
    assumptions = []
    jobs = None
    tlc_parallel = 4

    def models(self, tier, seed):
        raise NotImplementedError

    def prepare(self):
        """Import the code under test in the parent (so workers are cheap); may raise."""
        self.load()

    def vectors(self, results, tier, seed):
        return [v for r in results for v in r.vectors]

    def case(self, vec):
        return getattr(self, "op_" + vec.get("op", "default"))(vec)

    def extra(self, tier, seed):
        """More machinery (trace validation, threads, hash seeds ...): -> (failures, coverage dict)."""
        return [], {}

    def nontrivial(self, vec):
        return True

    # ------------------------------------------------------------------
    def main(self, tier, seed):
        t0 = time.time()
        fails, coverage = [], {}
        results = []
        ms = self.models(tier, seed)
        with ThreadPoolExecutor(max(1, min(len(ms), self.tlc_parallel))) as ex:
            runs = list(ex.map(lambda m: tlc.run(m, seed), ms))
        for m, r in zip(ms, runs):
            if r.violated:
                raise tlc.SpecError("the specification violates %s in %s:\n%s" % (r.violated, m.label, r.out[-4000:]))
            if m.emit and not r.vectors:
                raise tlc.SpecError("no vector emitted by %s:\n%s" % (m.label, r.out[-2000:]))
            results.append(r)
        t_spec = time.time() - t0
        vecs = []
        seen = set()
        for v in self.vectors(results, tier, seed):
            k = key_of(v)
            if k not in seen:
                seen.add(k)
                vecs.append(v)
        try:
            self.prepare()
        except Exception as e:
            fails.append(({"op": "prepare"}, "importing the code under test failed: %s: %s" % (type(e).__name__, e)))
            vecs_run = []
        else:
            vecs_run = vecs
        done = 0
        bad = []
        slow = 0.0
        budget = float(os.environ.get("VERIF_BUDGET", 520 if tier == "quick" else 6000))
        for i, out, dt in pool.run(self.case, vecs_run, nproc=self.jobs, hang=self.hang, deadline=t0 + budget):
            done += 1
            slow = max(slow, dt)
            if out is not None:
                bad.append((vecs_run[i], out, dt))
                if len(bad) > 40:
                    break
        # A case that took long may have met the code's own time limit because the machine is busy:
        # it is run again alone, and counts only if it fails again.
        for vec, out, dt in bad:
            if dt > 8 and len(fails) < 3:
                again = list(pool.run(self.case, [vec], nproc=1, hang=self.hang))
                if again[0][1] is None:
                    continue
                out = again[0][1]
            elif dt > 8 and fails:
                continue
            fails.append((vec, out))
        ef, ecov = [], {}
        if not any(v.get("op") == "prepare" for v, _ in fails):
            ef, ecov = self.extra(tier, seed)
        fails += ef
        coverage.update({
            "states": sum(r.distinct for r in results) + ecov.pop("states", 0),
            "transitions": sum(r.generated for r in results) + ecov.pop("transitions", 0),
            "traces_validated_against_impl": done + ecov.pop("traces", 0),
            "evaluations": done,
            "distinct_nontrivial": sum(1 for v in vecs if self.nontrivial(v)),
            "rule": "a case is one vector/behaviour TLC emitted from the specification, deduplicated by its inputs; "
                    "non-trivial unless both inputs are the same text",
            "models": [{"module": r.label, "distinct": r.distinct, "generated": r.generated, "vectors": len(r.vectors),
                        "behaviours": r.traces, "depth": r.depth} for r in results],
            "samples": [vecs[j] for j in sorted({0, len(vecs) // 3, len(vecs) // 2, len(vecs) - 1}) if 0 <= j < len(vecs)],
            "spec_seconds": round(t_spec, 1), "slowest_case_seconds": round(slow, 2),
        })
        coverage["models"] += ecov.pop("models", [])
        coverage.update(ecov)
        known = known_findings(self.id)
        shown, new = set(), []
        for vec, out in fails:
            k = key_of(vec)
            if k in known:
                if k not in shown:
                    shown.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.id, known[k]))
            else:
                new.append((vec, out))
        ev = {"property": self.id, "tier": tier, "seed": seed, "level": self.level, "coverage": coverage,
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w", encoding="utf-8") as h:
            json.dump(ev, h, indent=1, ensure_ascii=False)
        for vec, out in new[:10]:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            name = "%s-%s.json" % (self.id, hashlib.sha1(key_of(vec).encode()).hexdigest()[:10])
            with open(os.path.join(d, name), "w", encoding="utf-8") as h:
                json.dump({"property": self.id, "vector": vec, "observed": out}, h, indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=evidence/replay/%s" % (self.id, name))
            print("  " + str(out)[:600].replace("\n", " / "))
        print("%s %s: %d cases, %d spec states, %d violations, %.1f s (spec %.1f s)"
              % (self.id, tier, done, coverage["states"], len(new), time.time() - t0, t_spec))
        return 1 if new else 0
