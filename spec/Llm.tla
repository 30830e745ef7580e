-------------------------------- MODULE Llm ---------------------------------
(* C25.  The protocol of get_llm_type: the caller's request, the model that   *)
(* may fail, answer without a type, or answer with one, and the retry loop.   *)
(* Step is the only source of transitions: Next explores it exhaustively and  *)
(* LlmTrace replays recorded executions through it.                           *)
EXTENDS Base
CONSTANTS Tries, PromptTypes, Questions, Answers, Replies

VARIABLES st
Known == {1, 2}
Dollar == "$"

\* The answer as sent: its text without dollar signs, in one pair of them.
Wrapped(chunks) == Dollar \o Cat(SelectSeq(chunks, LAMBDA c : c # Dollar)) \o Dollar
Raw(chunks) == Cat(chunks)

HasType(r) == r.kind = "reply" /\ r.type # ""
Start(pt, mt, q, a) == [phase |-> "start", pt |-> pt, mt |-> mt, q |-> q, a |-> a,
                        calls |-> 0, out |-> "", script |-> <<>>]

\* Events: refuse | ask | answer(reply) | return(out)
Refuse(s) == /\ s.phase = "start" /\ s.pt \notin Known
Begin(s) == /\ s.phase = "start" /\ s.pt \in Known
Ask(s) == /\ s.phase = "ready" /\ s.calls < s.mt
GiveUp(s) == /\ s.phase = "ready" /\ s.calls >= s.mt

DoBegin(s) == [s EXCEPT !.phase = "ready"]
DoAsk(s) == [s EXCEPT !.phase = "asked", !.calls = @ + 1]
DoAnswer(s, r) == IF HasType(r)
                  THEN [s EXCEPT !.phase = "done", !.out = r.type, !.script = Append(@, r)]
                  ELSE [s EXCEPT !.phase = "ready", !.script = Append(@, r)]
DoRefuse(s) == [s EXCEPT !.phase = "raised"]
DoGiveUp(s) == [s EXCEPT !.phase = "none"]

Init == \E pt \in PromptTypes, mt \in Tries, q \in Questions, a \in Answers : st = Start(pt, mt, q, a)
Next == \/ Refuse(st) /\ st' = DoRefuse(st)
        \/ Begin(st) /\ st' = DoBegin(st)
        \/ Ask(st) /\ st' = DoAsk(st)
        \/ st.phase = "asked" /\ \E r \in Replies : st' = DoAnswer(st, r)
        \/ GiveUp(st) /\ st' = DoGiveUp(st)

Final == st.phase \in {"done", "none", "raised"}

(* -------------------------------- properties ----------------------------- *)
Bounded == st.calls <= st.mt
FirstWins == \A i \in 1..Len(st.script) : HasType(st.script[i]) => (i = Len(st.script) /\ st.phase = "done")
NoneIffAllFail == (st.phase = "none") => (st.calls = st.mt /\ \A i \in 1..Len(st.script) : ~HasType(st.script[i]))
RefusedUntouched == (st.phase = "raised") => (st.calls = 0)
OnePairOfDollars == LET w == Wrapped(st.a) IN Len(w) >= 2

Emit == Final => Out([op |-> "ask", pt |-> st.pt, mt |-> st.mt, q |-> st.q, raw |-> Raw(st.a), sent |-> Wrapped(st.a),
                      script |-> [i \in 1..Len(st.script) |-> [kind |-> st.script[i].kind, text |-> st.script[i].text]],
                      calls |-> st.calls, res |-> st.phase, out |-> st.out])
=============================================================================
