import copy, importlib, json, os, sys, threading, types
from .. import core
from ..core import Check, thin
from ..tlc import Model

VARS = {"openai": "OPENAI_API_KEY", "tongyi": "DASHSCOPE_API_KEY"}


def text(x):
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'


MESSAGES = [json.dumps(m) for m in (
    [], [{"role": "user", "content": "2+2?"}], [{"role": "system", "content": "be {brief}"}, {"role": "user", "content": "\\frac{1}{2} and $x$ 100%"}],
    [{"role": "user", "content": ""}, {"role": "assistant", "content": "Type: Real"}, {"role": "user", "content": "again"}])]


class ProviderError(Exception):
    pass


class Stand:
    """Stand-in for both provider modules: records every request and waits for the scripted answer."""

    def __init__(self):
        self.requests, self.lock, self.contacts = [], threading.Lock(), 0
        self.answers = {}
        self.clients = []

    def request(self, provider, key, args, kw):
        me = threading.current_thread().name
        with self.lock:
            self.contacts += 1
            self.requests.append(dict(provider=provider, key=key, args=args, kw=copy.deepcopy(kw), thread=me))
        asked, go, box = self.answers[me]
        asked.set()
        go.wait(20)
        return box

    def modules(self):
        me = self
        N = types.SimpleNamespace
        openai = types.ModuleType("openai")

        class OpenAI:
            def __init__(self, *args, **kw):
                me.contacts += 1
                key = kw.get("api_key")
                me.clients.append(("openai", args, kw))

                def create(*a, **k):
                    box = me.request("openai", key, a, k)
                    if box["out"] == "error":
                        raise box["exc"]
                    n = {"empty": 0, "one": 1, "many": 3}[box["out"]]
                    return N(choices=[N(message=N(content=box["text"] if i == 0 else "not this one %d" % i, role="assistant"), index=i) for i in range(n)])
                self.chat = N(completions=N(create=create))
        openai.OpenAI = OpenAI
        dashscope = types.ModuleType("dashscope")
        dashscope.api_key = None

        class Generation:
            @staticmethod
            def call(*a, **k):
                key = k.pop("api_key", None) or dashscope.api_key
                box = me.request("tongyi", key, a, k)
                if box["out"] == "error":
                    raise box["exc"]
                if box["out"] == "empty":
                    return N(status_code=400, output=None)
                return N(status_code=200, output=N(text=box["text"], choices=None))
        dashscope.Generation = Generation
        return {"openai": openai, "dashscope": dashscope}


class C(Check):
    id = "C26"
    technique = "TLA+ model of the callable factory over histories of key changes, creations and overlapping calls (TLC: exhaustive up to a short length, simulated beyond); histories replayed into the real factory with stand-in provider modules"
    level_note = "Every history of 4 operations over a reduced set exhaustively, histories of 14 (thorough: 24) operations with 3 threads by simulation; the providers' own libraries are replaced by stand-ins (they are not installed)."
    hang = 60
    assumptions = ["openai.OpenAI(api_key=...).chat.completions.create and dashscope.Generation.call are the providers' interfaces, as the code uses them"]

    def models(self, tier, seed):
        q = tier == "quick"
        names = '{"openai", "tongyi", "", "OpenAI", "openai ", "dashscope", "gpt", "qwen", "tongyi1"}'
        big = dict(Names=names, Models='{"gpt-3.5-turbo", "gpt-4", "qwen-max", "qwen {x}", ""}', Keys='{"", "k-1", "k-2", "sk 3"}', Messages="<<" + ", ".join(map(text, MESSAGES)) + ">>",
                   Outcomes='{[out |-> "one", text |-> "Type: Real"], [out |-> "one", text |-> ""], [out |-> "many", text |-> "first"], [out |-> "error", text |-> "boom"], [out |-> "empty", text |-> ""]}',
                   MaxOps=14 if q else 24, Threads=3)
        small = dict(big, Names='{"openai", "tongyi", "qwen"}', Models='{"m1", "m2"}', Keys='{"", "k-1"}', Messages="<<%s>>" % text(MESSAGES[1]),
                     Outcomes='{[out |-> "many", text |-> "first"], [out |-> "error", text |-> "boom"]}', MaxOps=4 if q else 5, Threads=1)
        inv = ["Bound", "OneEach", "OnlyKnown"]
        return [Model("FactoryAll", small, invs=inv, label="Factory short", timeout=2000), Model("FactoryRnd", big, mode="sim", invs=inv, num=700 if q else 20000, depth=60, label="Factory long", timeout=2000)]

    def vectors(self, results, tier, seed):
        q = tier == "quick"
        return thin(results[0].vectors, 1500 if q else 20000, seed) + thin(results[1].vectors, 1200 if q else 20000, seed) + [{"op": "defaults"}]

    def prepare(self):
        global llm_models
        from math_evaluation.llms import llm_models

    def install(self):
        stand = Stand()
        mods = stand.modules()
        sys.modules.update(mods)
        for n, m in mods.items():
            if isinstance(getattr(llm_models, n, None), types.ModuleType):
                setattr(llm_models, n, m)
        for n in VARS.values():
            os.environ.pop(n, None)
        return stand

    def check_request(self, r, op, creations, now):
        kw = dict(r["kw"])
        if r["provider"] != op["p"]:
            return "sent to %s, specified %s" % (r["provider"], op["p"])
        if r["args"]:
            return "positional arguments %r sent" % (r["args"],)
        if kw.pop("messages", None) != json.loads(op["msgs"]):
            return "messages %r sent, specified %s" % (r["kw"].get("messages"), op["msgs"])
        if kw.pop("model", None) != op["model"]:
            return "model %r sent, specified %r" % (r["kw"].get("model"), op["model"])
        if kw.pop("temperature", None) != 0.0001:
            return "temperature %r sent" % (r["kw"].get("temperature"),)
        for k in kw:
            if (k, kw[k]) not in (("n", 1), ("stream", False)):
                return "also sent %s=%r" % (k, kw[k])
        # the environment's key when the callable was made (tongyi: or when the last one was), or at the call
        keys = {op["key"], now.get(op["p"])}
        if op["p"] == "tongyi":
            keys.add(creations[-1])
        keys.discard(None)
        if "" in keys:      # no key set: any placeholder, but not another provider's key
            if r["key"] in {v for p, v in now.items() if p != op["p"] and v} - keys:
                return "the key %r of another provider was used" % (r["key"],)
        elif r["key"] not in keys:
            return "authenticated with %r, the environment's key is %r" % (r["key"], op["key"])

    def op_defaults(self, v):
        stand = self.install()
        os.environ[VARS["openai"]] = "k-d"
        call = llm_models.create_llm()
        asked, go, box = threading.Event(), threading.Event(), {"out": "one", "text": "ok"}
        go.set()
        stand.answers[threading.current_thread().name] = (asked, go, box)
        out = call(json.loads(MESSAGES[1]))
        if out != "ok":
            return "the default callable returned %r" % (out,)
        return self.check_request(stand.requests[0], {"p": "openai", "msgs": MESSAGES[1], "model": "gpt-3.5-turbo", "key": "k-d"}, ["k-d"], {"openai": "k-d"})

    def op_history(self, v):
        stand = self.install()
        made, now, running, tongyi = [], {"openai": "", "tongyi": ""}, {}, []
        for i, op in enumerate(v["ops"]):
            where = "operation %d (%s): " % (i + 1, {k: x for k, x in op.items() if x})
            before = stand.contacts
            if op["k"] == "key":
                now[op["p"]] = op["key"]
                if op["key"]:
                    os.environ[VARS[op["p"]]] = op["key"]
                else:
                    os.environ.pop(VARS[op["p"]], None)
            elif op["k"] == "refuse":
                try:
                    out = llm_models.create_llm(op["p"], op["model"])
                    return where + "create_llm(%r) returned %r, specified: refused" % (op["p"], out)
                except Exception:
                    pass
                if stand.contacts != before:
                    return where + "a provider was contacted"
            elif op["k"] == "create":
                try:
                    made.append(llm_models.create_llm(op["p"], op["model"]))
                except Exception as e:
                    return where + "raised %r" % (e,)
                if op["p"] == "tongyi":
                    tongyi.append(op["key"])
                if any(c[0] == "openai" for c in stand.clients[-1:]) and stand.contacts > before and op["p"] != "openai":
                    return where + "another provider's client was made"
            elif op["k"] == "begin":
                msgs = json.loads(op["msgs"])
                name = "t%d-%d" % (op["t"], i)
                asked, go, box, res = threading.Event(), threading.Event(), {}, {}
                stand.answers[name] = (asked, go, box)

                def work(call=made[op["c"] - 1], msgs=msgs, res=res, asked=asked):
                    try:
                        res["out"] = call(msgs)
                    except BaseException as e:
                        res["exc"] = e
                    asked.set()
                n = len(stand.requests)
                th = threading.Thread(target=work, name=name, daemon=True)
                th.start()
                asked.wait(20)
                if len(stand.requests) != n + 1:
                    return where + "no single request was sent (%d requests, %r)" % (len(stand.requests) - n, res)
                bad = self.check_request(stand.requests[-1], op, tongyi or [None], now)
                if bad:
                    return where + bad
                running[op["t"]] = (th, go, box, res, msgs, op, n + 1)
            else:
                th, go, box, res, msgs, begun, n = running.pop(op["t"])
                exc = ProviderError(op["text"])
                box.update(out=op["out"], text=op["text"], exc=exc)
                n = len(stand.requests)
                go.set()
                th.join(20)
                if len(stand.requests) != n:
                    return where + "another request was sent"
                if msgs != json.loads(begun["msgs"]):
                    return where + "the caller's messages were changed to %r" % (msgs,)
                if op["out"] == "error":
                    if res.get("exc") is not exc:
                        return where + "the provider's error did not come through: %r" % (res,)
                elif op["out"] == "empty":
                    if "exc" not in res:
                        return where + "an answer without choices gave %r" % (res,)
                elif res.get("out") != op["text"]:
                    return where + "returned %r, specified %r" % (res, op["text"])


CHECK = C()
