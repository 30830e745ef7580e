#!/opt/venv/bin/python
"""run.py ID [quick|thorough]  -- decide one property;  run.py ID --replay FILE -- re-run one recorded case."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0" or sys.prefix != "/opt/venv":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent",
               PYTHONWARNINGS="ignore")
    env.pop("PYTHONPATH", None)
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
from harness import core, tlc


def main():
    pid = sys.argv[1]
    check = importlib.import_module("harness.checks." + pid.lower()).CHECK
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        vec = json.load(open(sys.argv[3], encoding="utf-8"))["vector"]
        check.prepare()
        out = check.case(vec)
        print("observed:", out)
        return 1 if out is not None else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return check.main(tier, seed)
    except tlc.SpecError as e:
        print("MACHINERY ERROR:", e)
        return 3


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
