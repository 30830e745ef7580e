"""Run TLC on a module of /verif/spec and collect what it checked and emitted."""
import json, os, re, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class SpecError(Exception):
    """The specification itself failed (machinery error, never a verdict on the code)."""


class Model:
    def __init__(self, module, consts=None, mode="bfs", num=100, depth=100, invs=(), props=(),
                 emit=True, init="Init", next="Next", constraint=None, files=None, heap="3g",
                 workers=None, spec=None, post=None, label=None, timeout=800, view=None):
        self.module, self.consts, self.mode, self.num, self.depth = module, dict(consts or {}), mode, num, depth
        self.invs, self.props, self.emit, self.init, self.next = list(invs), list(props), emit, init, next
        self.constraint, self.files, self.heap, self.workers = constraint, dict(files or {}), heap, workers
        self.spec, self.post, self.label, self.timeout, self.view = spec, post, label or module, timeout, view


class Result:
    def __init__(self):
        self.vectors, self.generated, self.distinct, self.traces, self.depth = [], 0, 0, 0, 0
        self.violated, self.out, self.label = None, "", ""


def run(model, seed):
    tmp = tempfile.mkdtemp(prefix="vtlc.")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(tmp, f))
        for name, text in model.files.items():
            with open(os.path.join(tmp, name), "w") as h:
                h.write(text)
        cfg = []
        mc = ["---- MODULE MC ----", "EXTENDS " + model.module]
        for k, v in model.consts.items():
            if isinstance(v, bool):
                v = "TRUE" if v else "FALSE"
            mc.append("def_%s == %s" % (k, v))
            cfg.append("CONSTANT %s <- def_%s" % (k, k))
        mc.append("====")
        with open(os.path.join(tmp, "MC.tla"), "w") as h:
            h.write("\n".join(mc) + "\n")
        if model.spec:
            cfg.append("SPECIFICATION " + model.spec)
        else:
            cfg += ["INIT " + model.init, "NEXT " + model.next]
        for i in model.invs:
            cfg.append("INVARIANT " + i)
        if model.emit:
            cfg.append("INVARIANT Emit")
        for p in model.props:
            cfg.append("PROPERTY " + p)
        if model.constraint:
            cfg.append("CONSTRAINT " + model.constraint)
        if model.view:
            cfg.append("VIEW " + model.view)
        if model.post:
            cfg.append("POSTCONDITION " + model.post)
        cfg.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(tmp, "MC.cfg"), "w") as h:
            h.write("\n".join(cfg) + "\n")
        workers = model.workers or (1 if (model.emit or model.post) else 4)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + model.heap, "-Xss64m", "-Dfile.encoding=UTF-8",
               "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + tmp, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", os.path.join(tmp, "meta")]
        if model.mode == "sim":
            cmd += ["-simulate", "num=%d" % model.num, "-depth", str(model.depth), "-seed", str(seed)]
        else:
            cmd += ["-seed", str(seed), "-fp", "1"]
        cmd += ["-config", "MC.cfg", "MC.tla"]
        r = Result()
        r.label = model.label
        p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=model.timeout)
        out = p.stdout.decode("utf-8", "replace")
        rest = []
        seen = set()
        for line in out.splitlines():
            if line.startswith('"@@'):
                if line not in seen:
                    seen.add(line)
                    try:
                        r.vectors.append(json.loads(json.loads(line)[2:]))
                    except ValueError as e:
                        raise SpecError("bad vector %r: %s" % (line[:300], e))
            else:
                if not line.startswith(("Parsing file", "Semantic processing", "Linting of")):
                    rest.append(line)
        r.out = "\n".join(rest)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", r.out)
        if m:
            r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"number of states generated: ([\d,]+)", r.out)
        if m:
            r.generated = r.distinct = int(m[-1].replace(",", ""))
        m = re.findall(r"states checked, ([\d,]+) traces generated", r.out)
        if m:
            r.traces = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
        if m:
            r.depth = int(m[-1])
        m = re.search(r"(?:Invariant|property|Temporal properties|PostCondition|POSTCONDITION) ?(\S*) (?:is|was|were) (?:violated|false)", r.out)
        if m:
            r.violated = m.group(1) or "property"
        if p.returncode != 0 and not r.violated:
            at = max(r.out.find("Error"), 0)
            raise SpecError("TLC failed on %s (exit %d):\n%s\n...\n%s" % (model.label, p.returncode, r.out[at:at + 1500], r.out[-1500:]))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
