------------------------------ MODULE Histories ------------------------------
(* C15.  What one process did before, and what it does at the same time.  The  *)
(* module state of the parser and of the comparison is modelled explicitly:    *)
(* values of the call in progress (per thread), declared matrix symbols, the   *)
(* real-number setting, the last fraction style, the random generator and the  *)
(* alarm.  A verdict may use none of it.                                       *)
EXTENDS Base
CONSTANTS Pairs,        \* sequence of [a, b, exp]
          Parses,       \* sequence of [t, v, ok]: direct calls of the parser
          Threads, MaxOps
VARIABLES st

Idle == [k |-> "idle", i |-> 0]
T == 1..Threads
Fresh == [values |-> [t \in T |-> "none"], declared |-> {}, real |-> "unset", frac |-> "frac", seed |-> 0, alarm |-> "off"]
Init == st = [phase |-> "run", ops |-> <<>>, now |-> [t \in T |-> Idle], mem |-> Fresh, verdicts |-> {}]
Log(x) == Append(st.ops, x)
More == st.phase = "run" /\ Len(st.ops) < MaxOps
Busy == {t \in T : st.now[t].k # "idle"}
\* thread 1 is the main thread; the others only compare
StartEq == More /\ \E t \in T : st.now[t].k = "idle" /\ \E i \in {RandomElement(1..Len(Pairs))} :
      st' = [st EXCEPT !.now[t] = [k |-> "eq", i |-> i], !.ops = Log([k |-> "start", t |-> t, i |-> i, v |-> ""]), !.mem.alarm = IF t = 1 THEN "on" ELSE @,
                       !.mem.frac = IF i % 2 = 0 THEN "dfrac" ELSE @]
EndEq == \E t \in Busy : st.now[t].k = "eq" /\
      st' = [st EXCEPT !.now[t] = Idle, !.ops = Log([k |-> "end", t |-> t, i |-> st.now[t].i, v |-> ""]), !.verdicts = @ \cup {<<st.now[t].i, Pairs[st.now[t].i].exp>>},
                       !.mem.alarm = IF t = 1 THEN "off" ELSE @, !.mem.values[t] = "none"]
\* a direct call of the parser, well-formed or not, leaves only the fraction style behind
Parse == More /\ st.now[1].k = "idle" /\ \E i \in {RandomElement(1..Len(Parses))} :
      st' = [st EXCEPT !.now[1] = [k |-> "parse", i |-> i], !.ops = Log([k |-> "parse", t |-> 1, i |-> i, v |-> ""]), !.mem.values[1] = Parses[i].v]
EndParse == st.now[1].k = "parse" /\ st' = [st EXCEPT !.now[1] = Idle, !.mem.values[1] = "none", !.mem.frac = "tfrac"]
Seed == More /\ st.now[1].k = "idle" /\ \E s \in {RandomElement(0..5)} : st' = [st EXCEPT !.mem.seed = s, !.ops = Log([k |-> "seed", t |-> 1, i |-> s, v |-> ""])]
Stop == st.phase = "run" /\ Busy = {} /\ Len(st.ops) >= MaxOps - 2 /\ st' = [st EXCEPT !.phase = "done"]
Next == StartEq \/ EndEq \/ Parse \/ EndParse \/ Seed \/ Stop

(* ------------------------------- properties ------------------------------- *)
\* what a verdict could depend on is as at the start whenever a comparison runs in that thread
Untouched == st.mem.declared = {} /\ st.mem.real = "unset" /\ \A t \in T : st.now[t].k = "eq" => st.mem.values[t] = "none"
OneVerdict == \A x \in st.verdicts, y \in st.verdicts : x[1] = y[1] => x[2] = y[2]
Quiet == st.phase = "done" => st.mem.alarm = "off"
Named(x) == IF x.k \in {"start", "end"} THEN [k |-> x.k, t |-> x.t, i |-> x.i, a |-> Pairs[x.i].a, b |-> Pairs[x.i].b, exp |-> Pairs[x.i].exp]
            ELSE IF x.k = "parse" THEN [k |-> "parse", t |-> 1, i |-> x.i, a |-> Parses[x.i].t, b |-> Parses[x.i].v, exp |-> Parses[x.i].ok]
            ELSE [k |-> x.k, t |-> 1, i |-> x.i, a |-> "", b |-> "", exp |-> TRUE]
Emit == st.phase = "done" => Out([op |-> "history", ops |-> [j \in 1..Len(st.ops) |-> Named(st.ops[j])]])
=============================================================================
