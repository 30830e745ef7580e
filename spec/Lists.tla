-------------------------------- MODULE Lists --------------------------------
(* C24.  Relations between two sides, and lists of expressions and relations,   *)
(* written in every way the grammar has; what they must parse to is kept beside *)
(* the text: the kind of each element and the exact values of its sides.        *)
EXTENDS Base
CONSTANTS Mode, MaxLen
VARIABLES st

\* values at x = 3, y = -2, alpha = 5/3, x_1 = 4
Ex(t, n, d) == [t |-> t, v |-> Q(n, d)]
Exprs == <<Ex("x", 3, 1), Ex("2", 2, 1), Ex("-1", -1, 1), Ex("x+1", 4, 1), Ex("\\frac{1}{2}", 1, 2), Ex("2y", -4, 1), Ex("|y|", 2, 1), Ex("x^2-y", 11, 1), Ex("\\max(x,y)", 3, 1), Ex("(x+y)", 1, 1), Ex("\\alpha ", 5, 3), Ex("x_1", 4, 1),
           Ex("-\\frac{x}{y}", 3, 2), Ex("\\left(x-y\\right)^{2}", 25, 1), Ex("0.5", 1, 2), Ex("\\sqrt{4}", 2, 1), Ex("{x}", 3, 1), Ex("\\begin{vmatrix}x&1\\\\2&y\\end{vmatrix}", -8, 1), Ex("\\gcd(4,6)", 2, 1), Ex("(3!)", 6, 1),
           Ex("50\\%", 1, 2), Ex("x \\cdot y", -6, 1), Ex("-x", -3, 1), Ex("\\lfloor \\frac{7}{2} \\rfloor ", 3, 1), Ex("[x+2]", 5, 1), Ex("17", 17, 1), Ex("x/y", -3, 2), Ex("\\binom{4}{2}", 6, 1)>>
NE == Len(Exprs)
Rels == <<[k |-> "eq", t |-> "="], [k |-> "eq", t |-> "=="], [k |-> "eq", t |-> "\\equiv "], [k |-> "lt", t |-> "<"], [k |-> "le", t |-> "\\le "], [k |-> "le", t |-> "\\leq "], [k |-> "le", t |-> "\\leqslant "], [k |-> "gt", t |-> ">"],
          [k |-> "ge", t |-> "\\ge "], [k |-> "ge", t |-> "\\geq "], [k |-> "ge", t |-> "\\geqslant "], [k |-> "ne", t |-> "!="], [k |-> "ne", t |-> "!=="], [k |-> "ne", t |-> "\\ne "], [k |-> "ne", t |-> "\\neq "], [k |-> "ne", t |-> "\\not\\equiv "]>>
Forms == <<<<"", "">>, <<"[", "]">>, <<"{", "}">>, <<"\\{", "\\}">>, <<"\\left[", "\\right]">>, <<"\\left\\{", "\\right\\}">>, <<"\\mleft[", "\\mright]">>, <<"\\mleft\\{", "\\mright\\}">>>>
Seps == <<",", ";", ", ", " ; ", ",\\,", " , ">>
Kind(sep) == IF sep \in {2, 4} THEN ";" ELSE ","
\* one element: an expression or a relation
Plain(i) == [k |-> "expr", t |-> Exprs[i].t, v |-> <<Exprs[i].v>>]
Rel(r, i, j, sp) == [k |-> Rels[r].k, t |-> Exprs[i].t \o sp \o Rels[r].t \o sp \o Exprs[j].t, v |-> <<Exprs[i].v, Exprs[j].v>>]

Init == st = [phase |-> "items", items |-> <<>>]
R(n) == RandomElement(1..n)
AddPlain == st.phase = "items" /\ Mode # "rel" /\ Len(st.items) < MaxLen /\ \E i \in (IF Mode = "two" THEN 1..NE ELSE {R(NE)}) : st' = [st EXCEPT !.items = Append(@, Plain(i))]
AddRel == st.phase = "items" /\ Len(st.items) < (IF Mode = "rel" THEN 1 ELSE MaxLen) /\
          \E r \in (IF Mode = "deep" THEN {R(Len(Rels))} ELSE 1..Len(Rels)), i \in (IF Mode = "rel" THEN 1..NE ELSE {R(NE)}), j \in (IF Mode = "rel" THEN 1..NE ELSE {R(NE)}), sp \in {RandomElement({"", " "})} :
             st' = [st EXCEPT !.items = Append(@, Rel(r, i, j, sp))]
\* a list of two or more in some form; a relation alone is itself
Wrap == st.phase = "items" /\ Len(st.items) >= 2 /\ \E f \in DOMAIN Forms, s \in {R(Len(Seps))} : \E mix \in {R(3)} :
          st' = [phase |-> "done", items |-> st.items, list |-> TRUE,
                 a |-> Forms[f][1] \o Cat([i \in 1..Len(st.items) |-> (IF i > 1 THEN (IF mix = 3 /\ Kind(s) = "," THEN <<",", ", ">>[(i % 2) + 1] ELSE Seps[s]) ELSE "") \o st.items[i].t]) \o Forms[f][2], f |-> f, s |-> s]
Alone == st.phase = "items" /\ Len(st.items) = 1 /\ Mode = "rel" /\ st' = [phase |-> "done", items |-> st.items, list |-> FALSE, a |-> st.items[1].t, f |-> 0, s |-> 0]
Next == AddPlain \/ AddRel \/ Wrap \/ Alone

(* ------------------------------- properties ------------------------------- *)
\* the written direction: a strict relation and its mirror are different relations with exchanged sides
Mirror(k) == CASE k = "lt" -> "gt" [] k = "gt" -> "lt" [] k = "le" -> "ge" [] k = "ge" -> "le" [] OTHER -> k
ASSUME \A r \in DOMAIN Rels : Mirror(Mirror(Rels[r].k)) = Rels[r].k /\ (Rels[r].k \in {"lt", "le", "gt", "ge"} => Mirror(Rels[r].k) # Rels[r].k)
Sides == \A i \in DOMAIN st.items : Len(st.items[i].v) = (IF st.items[i].k = "expr" THEN 1 ELSE 2)
Emit == st.phase = "done" => Out([op |-> "rel", a |-> st.a, list |-> st.list, items |-> [i \in DOMAIN st.items |-> [k |-> st.items[i].k, v |-> st.items[i].v]], f |-> st.f, s |-> st.s])
=============================================================================
