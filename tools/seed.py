#!/opt/venv/bin/python
"""Try planted bugs.  usage: tools/seed.py BATCH.py [id ...]   or   tools/seed.py --again [id ...]

BATCH.py defines BUGS, a list of dicts (id, property, file, old, new[, edits], demo, needs, breaks).  Each is applied to a copy
of /repo mounted over /repo in a user namespace; it is kept in /verif/seeded when the tests still pass, the demonstration tells
the difference.  Whether the property's quick check catches it is printed (and only printed)."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inside(copy, evidence, cmd, timeout):
    script = "mount --bind %s /repo && mount --bind %s /verif/evidence && cd /repo && %s" % (copy, evidence, cmd)
    try:
        return subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess([], 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "")


def demo_text(body):
    return '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY


def try_bug(bug, again):
    work = tempfile.mkdtemp(prefix="seed.")
    out = [bug["id"], bug["property"]]
    try:
        copy, ev, new = work + "/repo", work + "/ev", work + "/new"
        os.makedirs(ev), os.makedirs(new)
        sh("cp -a /repo %s" % copy)
        if again:
            d = os.path.join(HERE, "seeded", bug["id"])
            sh("cp -a %s/. %s" % (d, new))
        else:
            for f, old, repl in bug.get("edits") or [(bug["file"], bug["old"], bug["new"])]:
                p = os.path.join(copy, f)
                text = open(p, encoding="utf-8", newline="").read()
                if text.count(old) != 1:
                    return out + ["EDIT: %d occurrences of %r" % (text.count(old), old[:60])]
                open(p, "w", encoding="utf-8", newline="").write(text.replace(old, repl))
            diff = sh("git -C %s diff" % copy).stdout
            open(new + "/patch.diff", "w", encoding="utf-8", newline="").write(diff)
            open(new + "/demo.sh", "w").write(demo_text(bug["demo"]))
            os.chmod(new + "/demo.sh", 0o755)
            open(new + "/demo.py", "w", encoding="utf-8").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + bug["demo"].strip() + "\n")
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(new + "/meta.json", "w"), indent=1)
            sh("git -C %s checkout -q -- ." % copy)
        clean = inside(copy, ev, "bash %s/demo.sh" % new, 300)
        if clean.returncode:
            return out + ["DEMO FAILS ON THE UNCHANGED TREE: " + clean.stdout[-300:]]
        ap = sh("git -C %s apply %s/patch.diff" % (copy, new))
        if ap.returncode:
            return out + ["PATCH: " + ap.stdout[-300:]]
        bad = inside(copy, ev, "bash %s/demo.sh" % new, 300)
        if not bad.returncode:
            return out + ["DEMO PASSES WITH THE PATCH"]
        if not again:
            t = inside(copy, ev, "bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh %s/out.json >/dev/null 2>&1" % work, 900)
            base, got = json.load(open("/opt/vp/BASELINE.json")), json.load(open(work + "/out.json"))
            passed = lambda x: next((set(x[k]) for k in ("stable", "passed", "pass") if k in x), None) or {t for t, r in (x.get("tests") or x).items() if r in ("passed", "pass", True)}
            lost = passed(base) - passed(got)
            if lost:
                return out + ["TESTS FAIL: %s" % sorted(lost)[:3]]
            d = os.path.join(HERE, "seeded", bug["id"])
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(new, d)
        c = inside(copy, ev, "cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.py %s quick" % bug["property"], 1000)
        lines = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION property=%s " % bug["property"])]
        return out + ["caught (%d)" % len(lines) if c.returncode == 1 and lines else "MISSED rc=%s %s" % (c.returncode, c.stdout[-200:] if c.returncode else "")]
    except Exception as e:
        return out + ["ERROR %r" % e]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    again = args[0] == "--again"
    if again:
        bugs = [dict(json.load(open(os.path.join(HERE, "seeded", d, "meta.json"))), id=d) for d in sorted(os.listdir(os.path.join(HERE, "seeded")))]
    else:
        ns = {}
        exec(open(args[0], encoding="utf-8").read(), ns)
        bugs = ns["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:] or b["property"] in args[1:]]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: try_bug(b, again), bugs):
            print(*r, sep="  ", flush=True)


main()
