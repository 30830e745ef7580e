"""Validate recorded executions against a trace specification (verdict per trace, total)."""
import json
from . import tlc


def validate(module, traces, consts, seed, chunk=4000):
    """-> (list of (index, why), coverage)"""
    bad, states, gen, models = [], 0, 0, []
    for k in range(0, len(traces), chunk):
        part = traces[k:k + chunk]
        m = tlc.Model(module, consts, init="TInit", next="TNext", emit=False, invs=["Emit2"], workers=1,
                      files={"traces.ndjson": "".join(json.dumps(t) + "\n" for t in part)})
        r = tlc.run(m, seed)
        if r.violated:
            raise tlc.SpecError(r.out[-3000:])
        got = {v["i"]: v for v in r.vectors}
        if sorted(got) != list(range(1, len(part) + 1)):
            raise tlc.SpecError("trace validation of %s covered %d of %d traces\n%s" % (module, len(got), len(part), r.out[-2000:]))
        for i, v in got.items():
            if not v["ok"]:
                bad.append((k + i - 1, v["why"]))
        states += r.distinct
        gen += r.generated
    models.append({"module": module, "traces": len(traces), "events": sum(len(t.get("ev", ())) for t in traces), "distinct": states})
    return bad, {"states": states, "transitions": gen, "traces": len(traces), "models": models}
