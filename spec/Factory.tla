------------------------------ MODULE Factory ------------------------------
(* C26.  Model callables.  The environment holds one key per provider (or     *)
(* none); creating a callable binds a provider and a model name; a callable   *)
(* carries the messages of one call to its provider and brings back the first *)
(* choice, or the provider's error.  Calls of several callables overlap.      *)
EXTENDS Base
CONSTANTS Names,      \* provider names tried, known and unknown
          Models, Keys, Messages, Outcomes, MaxOps, Threads, Pick(_)
VARIABLES st

Known == {"openai", "tongyi"}
T == 1..Threads
Idle == [c |-> 0, m |-> 0]
Init == st = [phase |-> "run", env |-> [p \in Known |-> ""], made |-> <<>>, busy |-> [t \in T |-> Idle], ops |-> <<>>, sent |-> <<>>, got |-> <<>>]
More == st.phase = "run" /\ Len(st.ops) < MaxOps
Op(x) == Append(st.ops, x)
Blank == [k |-> "", p |-> "", model |-> "", key |-> "", t |-> 0, c |-> 0, msgs |-> "", out |-> "", text |-> ""]

SetKey == More /\ \E p \in Pick(Known), v \in Pick(Keys) : v # st.env[p] /\
            st' = [st EXCEPT !.env[p] = v, !.ops = Op([Blank EXCEPT !.k = "key", !.p = p, !.key = v])]
\* a callable of an unknown provider is never made; nobody is contacted
Create == More /\ \E p \in Pick(Names), m \in Pick(Models) :
            IF p \in Known
            THEN st' = [st EXCEPT !.made = Append(@, [p |-> p, model |-> m, key |-> st.env[p]]), !.ops = Op([Blank EXCEPT !.k = "create", !.p = p, !.model = m, !.key = st.env[p]])]
            ELSE st' = [st EXCEPT !.ops = Op([Blank EXCEPT !.k = "refuse", !.p = p, !.model = m])]
Begin == More /\ \E t \in Pick(T), c \in Pick(DOMAIN st.made), m \in Pick(DOMAIN Messages) : st.busy[t] = Idle /\
            st' = [st EXCEPT !.busy[t] = [c |-> c, m |-> m], !.sent = Append(@, [p |-> st.made[c].p, model |-> st.made[c].model, m |-> m]),
                   !.ops = Op([Blank EXCEPT !.k = "begin", !.t = t, !.c = c, !.p = st.made[c].p, !.model = st.made[c].model, !.key = st.made[c].key, !.msgs = Messages[m]])]
End == \E t \in T : st.phase = "run" /\ st.busy[t] # Idle /\ \E o \in Pick(Outcomes) :
            st' = [st EXCEPT !.busy[t] = Idle, !.got = Append(@, [c |-> st.busy[t].c, out |-> o]),
                   !.ops = Op([Blank EXCEPT !.k = "end", !.t = t, !.c = st.busy[t].c, !.p = st.made[st.busy[t].c].p, !.out = o.out, !.text = o.text])]
Stop == st.phase = "run" /\ st.sent # <<>> /\ Len(st.ops) >= MaxOps - 1 /\ (\A t \in T : st.busy[t] = Idle) /\ st' = [st EXCEPT !.phase = "done"]
Next == SetKey \/ Create \/ Begin \/ End \/ Stop

(* ------------------------------- properties ------------------------------- *)
\* every request belongs to a made callable; no provider is ever asked more often than it was called
Bound == \A i \in DOMAIN st.sent : \E c \in DOMAIN st.made : st.made[c].p = st.sent[i].p /\ st.made[c].model = st.sent[i].model
OneEach == Len(st.got) + Cardinality({t \in T : st.busy[t] # Idle}) = Len(st.sent)
OnlyKnown == \A c \in DOMAIN st.made : st.made[c].p \in Known
Emit == st.phase = "done" => Out([op |-> "history", ops |-> st.ops])
=============================================================================
