------------------------------ MODULE Relations ------------------------------
(* C09.  Answers that are relations between linear forms a*x + b*y + c, or     *)
(* definitions of a name, or a bare expression; when two of them match.        *)
EXTENDS Base
CONSTANTS Coefs, Consts,   \* coefficients of x and y; constants
          Names,           \* left sides of definitions
          MaxEdits, Writes, Finish
VARIABLES st

L(a, b, c) == <<a, b, c>>
LNeg(l) == <<-l[1], -l[2], -l[3]>>
LSub(l, m) == <<l[1] - m[1], l[2] - m[2], l[3] - m[3]>>
LAdd(l, m) == <<l[1] + m[1], l[2] + m[2], l[3] + m[3]>>
LScale(l, k) == <<l[1] * k, l[2] * k, l[3] * k>>
Zero == <<0, 0, 0>>
Lone(l) == l \in {<<1, 0, 0>>, <<0, 1, 0>>}
\* k: "eq" "lt" "le" "gt" "ge" "ne" (l, r), "def" (n, r), "bare" (r)
Rel(k, l, r) == [k |-> k, n |-> "", l |-> l, r |-> r]
Def(n, r) == [k |-> "def", n |-> n, l |-> Zero, r |-> r]
Bare(r) == [k |-> "bare", n |-> "", l |-> Zero, r |-> r]
Strict(k) == k \in {"lt", "gt"}
Ineq(k) == k \in {"lt", "le", "gt", "ge"}
\* what an inequality says is less than zero
Under(x) == IF x.k \in {"lt", "le"} THEN LSub(x.l, x.r) ELSE LSub(x.r, x.l)
\* a constant relation is not an answer; an equation with a lone symbol on its left is a definition
Proper(x) == CASE x.k \in {"def", "bare"} -> TRUE
               [] x.k = "eq" -> ~Lone(x.l) /\ LET d == LSub(x.l, x.r) IN d[1] # 0 \/ d[2] # 0
               [] OTHER -> LET d == LSub(x.l, x.r) IN d[1] # 0 \/ d[2] # 0

Verdict(g, p) ==
    IF g.k \in {"def", "bare"} /\ p.k \in {"def", "bare"} THEN (IF g.r = p.r THEN "yes" ELSE "no")
    ELSE IF (g.k = "def" /\ p.k = "eq") \/ (g.k = "eq" /\ p.k = "def") THEN (IF g.r # p.r THEN "no" ELSE "?")
    ELSE IF g.k = "eq" /\ p.k = "eq" THEN LET x == LSub(g.l, g.r) y == LSub(p.l, p.r) IN (IF x = y \/ x = LNeg(y) THEN "yes" ELSE "no")
    ELSE IF Ineq(g.k) /\ Ineq(p.k) THEN (IF Strict(g.k) = Strict(p.k) /\ Under(g) = Under(p) THEN "yes" ELSE "no")
    ELSE IF g.k = "ne" /\ p.k = "ne" THEN (IF {g.l, g.r} = {p.l, p.r} THEN "yes" ELSE "no")
    ELSE "no"

(* -------------------------------- writings -------------------------------- *)
At(s, i) == s[(i % Len(s)) + 1]
Term(k, v, w) == IF k = 1 THEN v ELSE IF k = -1 THEN "-" \o v ELSE S(k) \o At(<<"", "", "\\cdot ", "*">>, w) \o v
Signed(t) == IF SubSeq(t, 1, 1) = "-" THEN t ELSE "+" \o t
Order == <<<<1, 2, 3>>, <<3, 1, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<1, 3, 2>>, <<3, 2, 1>>>>
Linear(l, w) ==
    LET o == At(Order, w)
        piece(i) == IF l[i] = 0 THEN "" ELSE IF i = 3 THEN S(l[3]) ELSE Term(l[i], IF i = 1 THEN "x" ELSE "y", w)
        ts == SelectSeq(<<piece(o[1]), piece(o[2]), piece(o[3])>>, LAMBDA t : t # "")
    IN IF ts = <<>> THEN "0"
       ELSE IF w % 7 = 6 /\ l[1] % 2 = 0 /\ l[2] % 2 = 0 /\ l[3] % 2 = 0
            THEN "2(" \o (LET h == <<l[1] \div 2, l[2] \div 2, l[3] \div 2>>
                              q(i) == IF h[i] = 0 THEN "" ELSE IF i = 3 THEN S(h[3]) ELSE Term(h[i], IF i = 1 THEN "x" ELSE "y", 0)
                              us == SelectSeq(<<q(1), q(2), q(3)>>, LAMBDA t : t # "")
                          IN us[1] \o Cat([j \in 1..(Len(us) - 1) |-> Signed(us[j + 1])])) \o ")"
            ELSE ts[1] \o Cat([j \in 1..(Len(ts) - 1) |-> At(<<"", " ">>, w) \o Signed(ts[j + 1])])
Sym(k, w) == At(CASE k = "eq" -> <<"=", " = ">> [] k = "lt" -> <<"<", " < ">> [] k = "gt" -> <<">", " > ">>
                  [] k = "le" -> <<"\\leq ", " \\le ", "\\leqslant ">> [] k = "ge" -> <<"\\geq ", " \\ge ", "\\geqslant ">>
                  [] OTHER -> <<"\\neq ", " \\ne ", "!=">>, w)
Text(x, w) == IF x.k = "bare" THEN Linear(x.r, w)
              ELSE IF x.k = "def" THEN x.n \o Sym("eq", w) \o Linear(x.r, w)
              ELSE Linear(x.l, w) \o Sym(x.k, w \div 2) \o Linear(x.r, w + 1)

(* --------------------------------- editing -------------------------------- *)
Flip(k) == CASE k = "lt" -> "gt" [] k = "gt" -> "lt" [] k = "le" -> "ge" [] k = "ge" -> "le" [] OTHER -> k
Units == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 0, -3>>, <<-2, 0, 0>>}
Edits(x) == {y \in
    IF x.k \in {"def", "bare"}
    THEN {Bare(x.r), Bare(LNeg(x.r))} \cup {Def(n, x.r) : n \in Names} \cup {Def("x", LAdd(x.r, u)) : u \in Units} \cup {Rel("eq", LScale(<<0, 1, 0>>, 2), x.r), Rel("lt", <<0, 1, 0>>, x.r), Rel("ge", <<1, 0, 0>>, x.r), Rel("ne", <<0, 1, 0>>, x.r)}
    ELSE {Rel(x.k, x.r, x.l), Rel(Flip(x.k), x.r, x.l), Rel(x.k, LNeg(x.l), LNeg(x.r)), Rel(Flip(x.k), LNeg(x.l), LNeg(x.r)), Rel(x.k, LScale(x.l, 2), LScale(x.r, 2)),
          Rel(x.k, LSub(x.l, x.r), Zero), Rel(x.k, Zero, LSub(x.r, x.l)), Rel(x.k, x.l, LNeg(x.r))}
         \cup {Rel(x.k, LAdd(x.l, u), LAdd(x.r, u)) : u \in Units} \cup {Rel(x.k, LAdd(x.l, u), x.r) : u \in Units} \cup {Rel(x.k, x.l, LAdd(x.r, u)) : u \in Units}
         \cup {Rel(k, x.l, x.r) : k \in {"eq", "lt", "le", "gt", "ge", "ne"}} \cup {Bare(LSub(x.l, x.r)), Bare(x.r), Def("z", x.r)}
    : Proper(y)}

Lins == {L(a, b, c) : a \in Coefs, b \in Coefs, c \in Consts}
Init == \E w \in 0..(Writes - 1), l \in Lins : st = [phase |-> "truth", g |-> Rel("eq", l, Zero), p |-> Bare(Zero), n |-> 0, w |-> w]
Truth == /\ st.phase = "truth"
         /\ \E r \in Lins : LET l == st.g.l IN
              \E g \in {Rel(k, l, r) : k \in {"eq", "lt", "le", "gt", "ge", "ne"}} \cup (IF l = Zero THEN {Bare(r)} \cup {Def(n, r) : n \in Names} ELSE {}) :
                Proper(g) /\ (g.k \in {"lt", "ge", "gt", "le", "ne"} => l # r) /\ (g.k \in {"def", "bare"} => r # Zero) /\ st' = [st EXCEPT !.phase = "edit", !.g = g, !.p = g]
Edit == st.phase = "edit" /\ st.n < MaxEdits /\ \E p \in Edits(st.p) : st' = [st EXCEPT !.p = p, !.n = st.n + 1]
Done == st.phase = "edit" /\ Finish /\ st.n >= 1 /\ st' = [st EXCEPT !.phase = "done"]
Next == Truth \/ Edit \/ Done

(* ------------------------------- properties ------------------------------- *)
Symmetric == Verdict(st.g, st.p) = Verdict(st.p, st.g)
SwapKeeps == st.phase # "truth" /\ st.g.k \in {"eq", "ne", "lt", "le", "gt", "ge"} /\ Proper(Rel(Flip(st.g.k), st.g.r, st.g.l)) => Verdict(st.g, Rel(Flip(st.g.k), st.g.r, st.g.l)) = "yes"
Judged == IF Finish THEN st.phase = "done" ELSE st.phase = "edit" /\ st.n > 0
W2 == st.w * 3 + 2 * st.n + Abs(st.p.r[1]) + Abs(st.p.r[3]) + Abs(st.p.l[2])
Emit == Judged => LET v == Verdict(st.g, st.p) IN v # "?" =>
    Out([op |-> "eq", a |-> Text(st.g, st.w), b |-> Text(st.p, W2), exp |-> v = "yes", why |-> st.g.k \o "~" \o st.p.k])
=============================================================================
