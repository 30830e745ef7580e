-------------------------------- MODULE Typed --------------------------------
(* C12.  Definitions under answer types: 'name = expression' answers, judged   *)
(* with every type; only Function drops a left side that is_equiv keeps.       *)
EXTENDS Base
CONSTANTS Plain,      \* left sides that name a function or variable
          Kept,       \* left sides is_equiv does not take as a name
          Bodies,     \* sequence of sequences: writings of one expression
          Nums,       \* numbers in ten-thousandths, compared within the tolerance the ground truth fixes
          Types       \* sequence of answer types
VARIABLES st
Heads == {[k |-> "none", t |-> ""]} \cup {[k |-> "plain", t |-> h] : h \in Plain} \cup {[k |-> "kept", t |-> h] : h \in Kept}
IsFunction(t) == t \in {"Function", "Function(s)", "Set, Function", "Function or Vector"}
At(s, i) == s[(i % Len(s)) + 1]
Contents == {[k |-> "body", i |-> i] : i \in 1..Len(Bodies)} \cup {[k |-> "num", i |-> i] : i \in Nums}
Text(h, c, w) == (IF h.k = "none" THEN "" ELSE h.t \o At(<<"=", " = ", " =">>, w)) \o (IF c.k = "body" THEN At(Bodies[c.i], w) ELSE Fixed(c.i, 4))
\* ground truth first
Same(g, p) == IF g.k = "body" \/ p.k = "body" THEN g = p
              ELSE LET d == Abs(g.i - p.i) a == Abs(g.i) IN IF a >= 10000 THEN d < 50 ELSE IF a = 0 THEN d < 10 ELSE d * 1000 < a
\* what is_equiv alone says; "?" where this specification does not say
PlainVerdict(x, y) ==
    IF x.h.k # "kept" /\ y.h.k # "kept" THEN (IF Same(x.c, y.c) THEN "yes" ELSE "no")
    ELSE IF x.c.k = "num" THEN "?"
    ELSE IF x.h = y.h THEN (IF Same(x.c, y.c) THEN "yes" ELSE "no")
    ELSE IF ~Same(x.c, y.c) THEN "no"
    ELSE IF x.h.k = "none" \/ y.h.k = "none" THEN "no" ELSE "?"
Verdict(t, x, y) == IF IsFunction(t) /\ Same(x.c, y.c) THEN "yes" ELSE PlainVerdict(x, y)
Nil == [h |-> [k |-> "none", t |-> ""], c |-> [k |-> "body", i |-> 1]]
Init == st = [phase |-> "truth", x |-> Nil, y |-> Nil, w |-> 0]
Truth == st.phase = "truth" /\ \E h \in Heads, c \in Contents, w \in 0..1 : st' = [st EXCEPT !.phase = "prediction", !.x = [h |-> h, c |-> c], !.w = w]
Prediction == st.phase = "prediction" /\ \E h \in Heads, c \in {d \in Contents : st.x.c.k = "num" => d.k = "num"} : st' = [st EXCEPT !.phase = "done", !.y = [h |-> h, c |-> c]]
Next == Truth \/ Prediction
OnlyWidens == \A i \in 1..Len(Types) : PlainVerdict(st.x, st.y) = "yes" => Verdict(Types[i], st.x, st.y) = "yes"
Symmetric == st.x.c.k = "body" /\ st.y.c.k = "body" => \A i \in 1..Len(Types) : Verdict(Types[i], st.x, st.y) = Verdict(Types[i], st.y, st.x)
Emit == st.phase = "done" => \A i \in 1..Len(Types) :
    LET v == Verdict(Types[i], st.x, st.y) IN
    v # "?" => Out([op |-> "type", a |-> Text(st.x.h, st.x.c, st.w), b |-> Text(st.y.h, st.y.c, st.w + 1 + st.x.c.i), t |-> Types[i], exp |-> v = "yes",
                    why |-> Types[i] \o ": " \o st.x.c.k \o " " \o st.x.h.k \o "~" \o st.y.h.k])
=============================================================================
