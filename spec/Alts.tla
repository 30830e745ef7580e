-------------------------------- MODULE Alts --------------------------------
(* C27.  Several accepted ground truths; and the benchmark script: a file of  *)
(* problems (in any order) with accepted answers, a file of model outputs     *)
(* whose last text holds boxes; the accuracy is the fraction accepted.        *)
EXTENDS Base
CONSTANTS Mode,       \* "alts" or "bench"
          Classes,    \* sequence of sequences of texts: spellings of one answer
          Ordered,    \* sequence of <<truth, prediction, accepted>>: pairs where it matters which is which
          MinAlts, MaxAlts, MaxProblems
VARIABLES st

Cls == 1..Len(Classes)
\* an answer is <<"c", class, spelling>> or <<"o", i>> (one side of an ordered pair)
Text(x, side) == IF x[1] = "c" THEN Classes[x[2]][x[3]] ELSE Ordered[x[2]][side]
Matches(g, p) == IF g[1] = "c" /\ p[1] = "c" THEN g[2] = p[2] ELSE g[1] = "o" /\ p[1] = "o" /\ g[2] = p[2] /\ Ordered[g[2]][3]
AnyMatch(gs, p) == \E i \in DOMAIN gs : Matches(gs[i], p)
RndC == LET c == RandomElement(Cls) IN <<"c", c, RandomElement(1..Len(Classes[c]))>>

(* ------------------------------ alternatives ------------------------------ *)
\* all alternatives, one spelling of each drawn; and single strings
AltInit == st = [phase |-> "alts", gs |-> <<>>, single |-> FALSE]
AddAlt == st.phase = "alts" /\ Len(st.gs) < MaxAlts /\ \E c \in Cls : \E k \in {RandomElement(1..Len(Classes[c]))} :
            ~(\E i \in DOMAIN st.gs : st.gs[i][2] = c) /\ st' = [st EXCEPT !.gs = Append(@, <<"c", c, k>>)]
Predict == st.phase = "alts" /\ Len(st.gs) >= MinAlts /\ \E c \in Cls : \E k \in {RandomElement(1..Len(Classes[c]))} : \E one \in (IF Len(st.gs) = 1 THEN BOOLEAN ELSE {FALSE}) :
            st' = [phase |-> "alt-done", gs |-> st.gs, p |-> <<"c", c, k>>, single |-> one]
PredictO == st.phase = "alts" /\ Len(st.gs) + 1 >= MinAlts /\ Len(st.gs) < MaxAlts /\ \E i \in DOMAIN Ordered : \E at \in {RandomElement(0..Len(st.gs))} :
            st' = [phase |-> "alt-done", gs |-> SubSeq(st.gs, 1, at) \o <<<<"o", i, 0>>>> \o SubSeq(st.gs, at + 1, Len(st.gs)), p |-> <<"o", i, 0>>, single |-> FALSE]

(* -------------------------------- benchmark ------------------------------- *)
\* what the texts around a box may be; the answer is in the last box of the last text
Around == <<"", "The answer is ", "so $", "$.", " {a \\} b} ", "\\text{ box \\{ }", "\\\\", "```output\n3\n```\n", "boxed{7} ", "\\fbox{8} ">>
NewProblem == st.phase = "bench" /\ Len(st.ps) < MaxProblems /\ \E n \in {RandomElement(1..3)} : \E r \in {RandomElement(1..1000)} :
            st' = [st EXCEPT !.phase = "truths", !.cur = [gs |-> <<>>, n |-> IF r % 3 = 0 THEN n ELSE 1, list |-> (r % 2 = 0) \/ (r % 3 = 0), boxes |-> <<>>, text |-> "", kind |-> "none"]]
Truth == st.phase = "truths" /\ \E c \in {RandomElement(Cls)} : \E k \in {RandomElement(1..Len(Classes[c]))} :
            st' = [st EXCEPT !.cur.gs = Append(@, <<"c", c, k>>), !.phase = IF Len(st.cur.gs) + 1 = st.cur.n THEN "boxes" ELSE "truths"]
\* a box with a right answer, a wrong one, or the end of the text
Right == LET g == st.cur.gs[RandomElement(DOMAIN st.cur.gs)] IN <<"c", g[2], RandomElement(1..Len(Classes[g[2]]))>>
Box == st.phase = "boxes" /\ Len(st.cur.boxes) < 3 /\ \E right \in BOOLEAN : \E b \in {IF right THEN Right ELSE RndC} : \E w \in {RandomElement(DOMAIN Around)} :
            st' = [st EXCEPT !.cur.boxes = Append(@, b), !.cur.text = @ \o Around[w] \o "\\boxed{" \o Text(b, 2) \o "}"]
\* a new program output: what was boxed before counts no more
Fresh == st.phase = "boxes" /\ st.cur.kind = "none" /\ st.cur.text # "" /\
            st' = [st EXCEPT !.cur.kind = "later", !.cur.boxes = <<>>, !.old = Append(@, [p |-> Len(st.ps) + 1, text |-> st.cur.text]), !.cur.text = ""]
Close == st.phase = "boxes" /\ \E w \in {RandomElement(DOMAIN Around)} :
            LET ok == st.cur.boxes # <<>> /\ AnyMatch(st.cur.gs, Last(st.cur.boxes)) IN
            st' = [st EXCEPT !.phase = "bench", !.right = IF ok THEN @ + 1 ELSE @,
                   !.ps = Append(@, [gs |-> [i \in DOMAIN st.cur.gs |-> Text(st.cur.gs[i], 1)], list |-> st.cur.list \/ Len(st.cur.gs) > 1, text |-> st.cur.text \o Around[w], ok |-> ok])]
Order == st.phase = "bench" /\ Len(st.ps) > 0 /\ \E s \in {RandomElement(0..9999)} : st' = [st EXCEPT !.phase = "bench-done", !.shuffle = s]

Init == IF Mode = "alts" THEN AltInit ELSE st = [phase |-> "bench", ps |-> <<>>, old |-> <<>>, cur |-> [gs |-> <<>>, n |-> 0, list |-> FALSE, boxes |-> <<>>, text |-> "", kind |-> ""], right |-> 0, shuffle |-> 0]
Next == AddAlt \/ Predict \/ PredictO \/ NewProblem \/ Truth \/ Box \/ Fresh \/ Close \/ Order

(* ------------------------------- properties ------------------------------- *)
\* accepted for some alternative alone iff accepted for the list; more alternatives never hurt
Distributes == st.phase = "alt-done" => (AnyMatch(st.gs, st.p) <=> \E i \in DOMAIN st.gs : AnyMatch(<<st.gs[i]>>, st.p))
Counted == Mode = "bench" => st.right = Cardinality({i \in DOMAIN st.ps : st.ps[i].ok}) /\ st.right <= Len(st.ps)
Emit == CASE st.phase = "alt-done" -> Out([op |-> "alts", gs |-> [i \in DOMAIN st.gs |-> Text(st.gs[i], 1)], single |-> st.single, p |-> Text(st.p, 2), exp |-> AnyMatch(st.gs, st.p)])
          [] st.phase = "bench-done" -> Out([op |-> "bench", ps |-> st.ps, old |-> st.old, shuffle |-> st.shuffle, right |-> st.right])
          [] OTHER -> TRUE
=============================================================================
