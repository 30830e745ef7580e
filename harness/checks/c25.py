import random
from ..core import Check
from ..tlc import Model
from .. import trace


class C(Check):
    id = "C25"
    technique = "TLA+ protocol model of the retry loop (TLC, exhaustive) replayed into get_llm_type with a scripted model; recorded random sessions validated by a TLA+ trace specification"
    level_note = ("Exhaustive over every reply script up to the bound; the model is a stub, so nothing is assumed about providers. "
                  "Longer random sessions are checked against the same transition relation.")
    hang = 30

    CONST = dict(
        Questions='{"What is $x$?", "Find {all} roots of $x^2 = 1$\\nwith 100% care"}',
        Answers='{<<"(0, 2)">>, <<"$", "5", "$">>, <<"$", "1", "$", " and ", "$", "2", "$">>, <<"cost ", "$", "5">>, <<"{", "a", "}">>, <<"$">>, <<"x", "$">>}',
        Replies='''{[kind |-> "raise", text |-> "", type |-> ""], [kind |-> "none", text |-> "", type |-> ""],
                    [kind |-> "reply", text |-> "I do not know", type |-> ""], [kind |-> "reply", text |-> "type: Real", type |-> ""],
                    [kind |-> "reply", text |-> "Because so.\\nType: Real", type |-> "Real"],
                    [kind |-> "reply", text |-> "Type:\\n  Interval(s)\\nmore Type: Set", type |-> "Interval(s)"],
                    [kind |-> "reply", text |-> "Type:Vector, Set", type |-> "Vector, Set"]}''')

    def models(self, tier, seed):
        top = 3 if tier == "quick" else 4
        invs = ["Bounded", "FirstWins", "NoneIffAllFail", "RefusedUntouched", "OnePairOfDollars"]
        one = dict(self.CONST, Questions='{"What is $x$?"}', Answers='{<<"$", "5", "$">>}')
        wide = dict(self.CONST, Replies='''{[kind |-> "raise", text |-> "", type |-> ""],
                    [kind |-> "reply", text |-> "Type: Real", type |-> "Real"]}''')
        return [Model("Llm", dict(one, Tries="0..%d" % top, PromptTypes="{1}"), invs=invs, label="Llm scripts"),
                Model("Llm", dict(wide, Tries="{0, 1, 5}", PromptTypes="{0, 1, 2, 3}"), invs=invs, label="Llm requests")]

    def prepare(self):
        global llm_models, prompts
        from math_evaluation.llms import llm_models, prompts

    def expected_content(self, pt, q, sent):
        t = prompts.prompt_template if pt == 1 else prompts.prompt_template_2
        t = t.replace("{{", "\0").replace("}}", "\1")
        a, rest = t.split("{question}")
        b, c = rest.split("{ground_truth}")
        return "".join([a, q, b, sent, c]).replace("\0", "{").replace("\1", "}") if "\0" in t else a + q + b + sent + c

    def session(self, pt, mt, q, raw, sent, script, default=False):
        ev = []
        it = iter(script)

        def call(*args, **kw):
            msgs = args[0] if args else kw.get("messages")
            same = (len(args) + len(kw) == 1 and isinstance(msgs, list) and len(msgs) == 1
                    and dict(msgs[0]) == {"role": "user", "content": self.expected_content(pt, q, sent)})
            ev.append({"ev": "ask", "same": bool(same)})
            r = next(it, None)
            if r is None or r["kind"] == "raise":
                ev.append({"ev": "answer", "kind": "raise", "type": ""})
                raise RuntimeError("scripted failure")
            ev.append({"ev": "answer", "kind": r["kind"], "type": r.get("type", "")})
            return None if r["kind"] == "none" else r["text"]
        try:
            kw = {} if default else {"prompt_type": pt, "max_try": mt}
            out = llm_models.get_llm_type(call, q, raw, **kw)
        except Exception as e:
            ev.append({"ev": "raise", "what": repr(e)[:100]})
            return ev, "raised", ""
        ev.append({"ev": "return", "out": "<none>" if out is None else out})
        return ev, "none" if out is None else "done", out

    def op_ask(self, v):
        for default in ([False, True] if (v["pt"], v["mt"]) == (1, 5) else [False]):
            ev, res, out = self.session(v["pt"], v["mt"], v["q"], v["raw"], v["sent"], v["script"], default)
            asks = [e for e in ev if e["ev"] == "ask"]
            if res != v["res"]:
                return "ended as %r, specified %r: %s" % (res, v["res"], ev)
            if res == "done" and out != v["out"]:
                return "returned %r, specified %r" % (out, v["out"])
            if len(asks) != v["calls"]:
                return "%d calls, specified %d" % (len(asks), v["calls"])
            if not all(e["same"] for e in asks):
                return "a call did not carry the specified request"
        return None

    def extra(self, tier, seed):
        rnd = random.Random(seed)
        types = ["Real", "Set", "Vector", "Interval(s)", "Complex, Set", "Others"]
        traces, vecs = [], []
        for _ in range(400 if tier == "quick" else 4000):
            script = []
            for _ in range(rnd.randrange(0, 12)):
                k = rnd.random()
                if k < .45:
                    script.append({"kind": "raise", "text": "", "type": ""})
                elif k < .6:
                    script.append({"kind": "none", "text": "", "type": ""})
                elif k < .8:
                    script.append({"kind": "reply", "text": rnd.choice(["", "no idea", "Kind: Real", "TYPE: Set", "Type Real"]), "type": ""})
                else:
                    ty = rnd.choice(types)
                    script.append({"kind": "reply", "type": ty, "text": rnd.choice(["", "Analysis: so\n", "Answer "]) + "Type:" + rnd.choice(["", " ", "\n", "\t "])
                                   + ty + rnd.choice(["", "\n", "\nType: Matrix", "\n\nmore"])})
            core = "".join(rnd.choice("ab{}^_ 12") for _ in range(5)).strip() or "7"
            raw = rnd.choice([core, "$" + core + "$", "$" + core, core[:2] + "$" + core[2:], "$$" + core + "$$"])
            q = "".join(rnd.choice("xyz{}$%\\ ") for _ in range(8))
            pt, mt = rnd.choice([1, 1, 2, 2, 7]), rnd.randrange(0, 11)
            ev, res, out = self.session(pt, mt, q, raw, "$" + core + "$", script)
            traces.append({"pt": pt, "mt": mt, "ev": ev})
            vecs.append({"op": "session", "pt": pt, "mt": mt, "q": q, "raw": raw, "sent": "$" + core + "$", "script": script})
        bad, cov = trace.validate("LlmTrace", traces, dict(self.CONST, Tries="{0}", PromptTypes="{1}"), seed)
        return [(vecs[i], why + ": " + str(traces[i]["ev"])[:400]) for i, why in bad], cov

    def op_session(self, v):
        ev, res, out = self.session(v["pt"], v["mt"], v["q"], v["raw"], v["sent"], v["script"])
        bad, _ = trace.validate("LlmTrace", [{"pt": v["pt"], "mt": v["mt"], "ev": ev}], dict(self.CONST, Tries="{0}", PromptTypes="{1}"), 1)
        return bad[0][1] if bad else None


CHECK = C()
