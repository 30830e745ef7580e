-------------------------------- MODULE Faults --------------------------------
(* C14.  A comparison as a sequence of timed steps, any of which may raise or   *)
(* get stuck until its time limit.  Reading: the latex reader, then the plain   *)
(* latex reader, then the python reader.  Then the methods, in order: expand,   *)
(* simplify, sample twice.  A method uses steps; when one of them fails the     *)
(* method establishes nothing and the next one runs.                            *)
EXTENDS Base
CONSTANTS Pairs,       \* sequence of [a, b, sure, maybe, python]: sure/maybe are sets of sets of steps
          MaxFaults, Kinds, Scopes, Places
VARIABLES st

Steps == {"latex", "python", "evalf", "expand", "simplify", "abs"}
Faulty(plan) == {s \in Steps : plan[s].m # "ok"}
\* a fault of the first call only leaves the step usable later on
Late(plan) == {s \in Steps : plan[s].m # "ok" /\ plan[s].at = "first"}
Fine == [s \in Steps |-> [m |-> "ok", at |-> "all"]]

(* The machine.  pc runs over the methods; a step inside a method arms the alarm, runs and disarms it. *)
Order == <<"read", "evaluate", "expand", "simplify", "sample int", "sample float">>
Needs(m) == CASE m = "read" -> {"latex"} [] m = "evaluate" -> {"evalf"} [] m = "expand" -> {"expand"}
              [] m = "simplify" -> {"simplify", "abs"} [] OTHER -> {"evalf", "abs"}
Init == \E i \in 1..Len(Pairs), p \in Places : st = [phase |-> "plan", i |-> i, plan |-> Fine, place |-> p, pc |-> 1, alarm |-> "off", handler |-> "caller", todo |-> {}, done |-> {}, failed |-> FALSE, stuck |-> 0, calls |-> {}, accepted |-> FALSE]
Fault == /\ st.phase = "plan" /\ Cardinality(Faulty(st.plan)) < MaxFaults
         /\ \E s \in Steps, k \in Kinds, a \in Scopes : st.plan[s].m = "ok" /\ st' = [st EXCEPT !.plan[s] = [m |-> k, at |-> a]]
Begin == st.phase = "plan" /\ st' = [st EXCEPT !.phase = "run", !.todo = Needs(Order[1])]
Running == st.phase = "run" /\ st.pc <= Len(Order) /\ ~st.accepted
Arm == Running /\ st.alarm = "off" /\ st.todo # {} /\ ~st.failed /\ \E s \in st.todo : st' = [st EXCEPT !.alarm = s, !.handler = "ours"]
Fails(s) == st.plan[s].m # "ok" /\ ~(st.plan[s].at = "first" /\ s \in st.calls)
Return == /\ Running /\ st.alarm # "off"
          /\ LET s == st.alarm IN
             st' = [st EXCEPT !.alarm = "off", !.handler = "caller", !.todo = @ \ {s}, !.calls = @ \cup {s},
                              !.failed = @ \/ Fails(s), !.stuck = @ + (IF Fails(s) /\ st.plan[s].m = "stuck" THEN 1 ELSE 0),
                              !.done = IF Fails(s) THEN @ ELSE @ \cup {s}]
\* the end of a method: it may establish equality only if its steps completed and the pair is one it can decide
Establishes(m) == \E w \in Pairs[st.i].maybe : Needs(m) \cap w # {} /\ w \cap Steps \subseteq st.done \cup {"python"} /\ m \in {"expand", "simplify", "sample int", "sample float"}
Method == /\ Running /\ st.alarm = "off" /\ (st.todo = {} \/ st.failed)
          /\ \/ /\ ~st.failed /\ Establishes(Order[st.pc]) /\ st' = [st EXCEPT !.accepted = TRUE]
             \/ st' = [st EXCEPT !.pc = @ + 1, !.failed = FALSE, !.todo = IF st.pc < Len(Order) THEN Needs(Order[st.pc + 1]) ELSE {}]
Next == Fault \/ Begin \/ Arm \/ Return \/ Method
Spec == Init /\ [][Next]_st /\ WF_st(Arm) /\ WF_st(Return) /\ WF_st(Method) /\ WF_st(Begin)

(* What may be observed from outside under a plan *)
Works(w, bad) == w \cap bad = {}
\* the two samplings survive one failing evaluation; elsewhere it leaves one side evaluated and the other not
MustAccept(i, plan) == \E w \in Pairs[i].sure :
    IF "sample" \in w THEN Works(w, Faulty(plan) \ (Late(plan) \cap {"evalf"})) ELSE "evalf" \notin Late(plan) /\ Works(w, Faulty(plan))
MayAccept(i, plan) == \E w \in Pairs[i].maybe : Works(w, Faulty(plan) \ Late(plan))
Verdict(i, plan) == IF MustAccept(i, plan) THEN "yes" ELSE IF MayAccept(i, plan) THEN "?" ELSE "no"

(* ------------------------------- properties ------------------------------- *)
Ended == st.phase = "run" /\ (st.accepted \/ st.pc > Len(Order))
NeverBecauseOfAFailure == st.accepted => MayAccept(st.i, st.plan)
Clean == Ended => st.alarm = "off" /\ st.handler = "caller"
ArmedOnlyInside == (st.handler = "ours") = (st.alarm # "off")
Bounded == st.stuck <= 9
DifferentNever == Pairs[st.i].maybe = {} => ~st.accepted
SureIsPossible == MustAccept(st.i, st.plan) => MayAccept(st.i, st.plan)
Terminates == <>[](Ended \/ st.phase = "plan")
Emit == Ended => Out([op |-> "fault", a |-> Pairs[st.i].a, b |-> Pairs[st.i].b, plan |-> [s \in Faulty(st.plan) |-> st.plan[s]], place |-> st.place,
                      exp |-> Verdict(st.i, st.plan), why |-> Verdict(st.i, st.plan) \o " " \o S(Cardinality(Faulty(st.plan)))])
=============================================================================
