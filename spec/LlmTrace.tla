------------------------------ MODULE LlmTrace ------------------------------
(* Checks recorded executions of get_llm_type against Llm's transitions.      *)
(* A trace is a sequence of events; the verdict is total and names the first  *)
(* clause that fails.                                                         *)
EXTENDS Llm, IOUtils
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t

OK(s) == [ok |-> TRUE, s |-> s, why |-> ""]
Bad(s, why) == [ok |-> FALSE, s |-> s, why |-> why]

One(acc, e) ==
  IF ~acc.ok THEN acc ELSE
  LET s0 == acc.s
      s == IF Begin(s0) THEN DoBegin(s0) ELSE s0      \* silent step
  IN CASE e.ev = "ask" ->
            IF ~Ask(s) THEN Bad(s, "called the model when no further call is allowed")
            ELSE IF ~e.same THEN Bad(s, "the request differs from the specified one")
            ELSE OK(DoAsk(s))
       [] e.ev = "answer" ->
            IF s.phase # "asked" THEN Bad(s, "answer without a call") ELSE OK(DoAnswer(s, [kind |-> e.kind, text |-> "", type |-> e.type]))
       [] e.ev = "return" ->
            IF s.phase = "done" THEN (IF e.out = s.out THEN OK([s EXCEPT !.phase = "end"]) ELSE Bad(s, "returned something else than the first type"))
            ELSE IF GiveUp(s) /\ e.out = "<none>" THEN OK([s EXCEPT !.phase = "end"])
            ELSE Bad(s, "returned before a type was given and with calls left, or not None after the last")
       [] e.ev = "raise" ->
            IF Refuse(s0) THEN OK([s EXCEPT !.phase = "end"]) ELSE Bad(s, "raised")
       [] OTHER -> Bad(s, "unknown event")

Verdict(tr) == LET r == FoldL(One, OK(Start(tr.pt, tr.mt, "", <<>>)), tr.ev)
               IN IF r.ok /\ r.s.phase # "end" THEN Bad(r.s, "the execution did not finish") ELSE r

TInit == t = 1 /\ st = Start(1, 0, "", <<>>)
TNext == t <= Len(Traces) /\ t' = t + 1 /\ st' = Verdict(Traces[t]).s
Emit2 == t <= Len(Traces) => LET v == Verdict(Traces[t]) IN Out([i |-> t, ok |-> v.ok, why |-> v.why, n |-> Len(Traces[t].ev)])
=============================================================================
