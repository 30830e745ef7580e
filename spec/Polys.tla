-------------------------------- MODULE Polys --------------------------------
(* C10.  Rational functions of two letters.  A ground truth is a quotient of   *)
(* products of small polynomials; the prediction is the same function written  *)
(* another way, or with one coefficient, exponent, sign or letter changed.     *)
EXTENDS Base
CONSTANTS Coefs, Consts,    \* of the linear factors a*u + b*v + c
          MaxNum, MaxDen,   \* factors above and below
          MaxSteps, Letters,
          OnlyFold,
          Finish
VARIABLES st

D == 5
Ix == 0..D
PZero == [i \in Ix |-> [j \in Ix |-> 0]]
POne == [PZero EXCEPT ![0][0] = 1]
PLin(a, b, c) == [PZero EXCEPT ![1][0] = a, ![0][1] = b, ![0][0] = c]
PQuad(a, b, c) == [PZero EXCEPT ![2][0] = a, ![1][1] = b, ![0][0] = c]
Mons(p) == {<<i, j>> \in Ix \X Ix : p[i][j] # 0}
RECURSIVE SumOver(_, _, _, _, _)
SumOver(p, q, i, j, S0) == IF S0 = {} THEN 0 ELSE LET m == CHOOSE m \in S0 : TRUE IN
      (IF i >= m[1] /\ j >= m[2] THEN p[m[1]][m[2]] * q[i - m[1]][j - m[2]] ELSE 0) + SumOver(p, q, i, j, S0 \ {m})
PMul(p, q) == LET ms == Mons(p) IN LET ks == Mons(q) IN LET hit == {<<m[1] + k[1], m[2] + k[2]>> : m \in ms, k \in ks} IN
    [i \in Ix |-> [j \in Ix |-> IF <<i, j>> \in hit THEN SumOver(p, q, i, j, ms) ELSE 0]]
PAdd(p, q) == [i \in Ix |-> [j \in Ix |-> p[i][j] + q[i][j]]]
PScale(p, k) == [i \in Ix |-> [j \in Ix |-> k * p[i][j]]]
RECURSIVE Prod(_)
Prod(fs) == IF fs = <<>> THEN POne ELSE PMul(Head(fs), Prod(Tail(fs)))
Degree(p) == IF Mons(p) = {} THEN 0 ELSE CHOOSE d \in 0..(2 * D) : (\E m \in Mons(p) : m[1] + m[2] = d) /\ \A m \in Mons(p) : m[1] + m[2] <= d
\* a function: factors above and below
F(n, d) == [n |-> n, d |-> d]
Same(f, g) == PMul(Prod(f.n), Prod(g.d)) = PMul(Prod(g.n), Prod(f.d))
Constant(f) == \E k \in {<<1, 1>>} : Mons(Prod(f.n)) \subseteq {<<0, 0>>} /\ Mons(Prod(f.d)) \subseteq {<<0, 0>>}

(* -------------------------------- writings -------------------------------- *)
At(s, i) == s[(i % Len(s)) + 1]
Power(v, k, w) == IF k = 0 THEN "" ELSE IF k = 1 THEN v ELSE v \o "^" \o At(<<S(k), "{" \o S(k) \o "}">>, w)
MonText(c, i, j, w, L) ==
    LET body == At(<<Power(L[1], i, w) \o Power(L[2], j, w), Power(L[2], j, w) \o Power(L[1], i, w),
                     Power(L[1], i, w) \o (IF i > 0 /\ j > 0 THEN " \\cdot " ELSE "") \o Power(L[2], j, w)>>, w \div 2)
        a == Abs(c)
    IN Sign(c) \o (IF body = "" THEN S(a) ELSE IF a = 1 THEN body ELSE S(a) \o At(<<"", " \\cdot ", " ", "">>, w) \o body)
RECURSIVE Sorted(_, _)
Before(m, k, w) == CASE w % 4 = 0 -> m[1] + m[2] > k[1] + k[2] \/ (m[1] + m[2] = k[1] + k[2] /\ m[1] > k[1])
                     [] w % 4 = 1 -> m[1] < k[1] \/ (m[1] = k[1] /\ m[2] < k[2])
                     [] w % 4 = 2 -> m[2] > k[2] \/ (m[2] = k[2] /\ m[1] > k[1])
                     [] OTHER -> (m[1] * 7 + m[2] * 3) % 5 < (k[1] * 7 + k[2] * 3) % 5 \/ ((m[1] * 7 + m[2] * 3) % 5 = (k[1] * 7 + k[2] * 3) % 5 /\ (m[1] < k[1] \/ (m[1] = k[1] /\ m[2] < k[2])))
Sorted(M, w) == IF M = {} THEN <<>> ELSE LET m == CHOOSE m \in M : \A k \in M \ {m} : Before(m, k, w) IN <<m>> \o Sorted(M \ {m}, w)
Signed(t) == IF SubSeq(t, 1, 1) = "-" THEN t ELSE "+" \o t
SumText(ts) == IF ts = <<>> THEN "0" ELSE ts[1] \o Cat([j \in 1..(Len(ts) - 1) |-> Signed(ts[j + 1])])
Expanded(p, w, L) == LET ms == Sorted(Mons(p), w) IN SumText([k \in 1..Len(ms) |-> MonText(p[ms[k][1]][ms[k][2]], ms[k][1], ms[k][2], w, L)])
Paren(t, w) == At(<<"(" \o t \o ")", "\\left(" \o t \o "\\right)", "[" \o t \o "]", "(" \o t \o ")">>, w)
Factored(fs, w, L) ==
    IF Len(fs) = 1 THEN Expanded(fs[1], w, L)
    ELSE Join([k \in 1..Len(fs) |-> Paren(Expanded(IF w % 2 = 0 THEN fs[k] ELSE fs[Len(fs) + 1 - k], w + k, L), w)], At(<<"", " \\cdot ", "", " \\times ", "*">>, w))
\* the monomials of the first factor times the rest
Distributed(fs, w, L) ==
    IF Len(fs) < 2 THEN Expanded(fs[1], w, L)
    ELSE LET ms == Sorted(Mons(fs[1]), w) r == Expanded(Prod(Tail(fs)), w + 1, L) IN
         SumText([k \in 1..Len(ms) |-> MonText(fs[1][ms[k][1]][ms[k][2]], ms[k][1], ms[k][2], w, L) \o " \\cdot (" \o r \o ")"])
Merged(fs, w, L) == IF Len(fs) < 3 THEN Expanded(Prod(fs), w, L) ELSE Factored(<<PMul(fs[1], fs[2])>> \o SubSeq(fs, 3, Len(fs)), w, L)
\* a sum regrouped with nested parentheses and subtraction
Nested(p, w, L) == LET ms == Sorted(Mons(p), w) IN
    IF Len(ms) < 2 THEN Expanded(p, w, L)
    ELSE LET q == [p EXCEPT ![ms[1][1]][ms[1][2]] = 0] IN MonText(p[ms[1][1]][ms[1][2]], ms[1][1], ms[1][2], w, L) \o "-(" \o Expanded(PScale(q, -1), w + 1, L) \o ")"
\* every term in braces
BracedSum(p, w, L) == LET ms == Sorted(Mons(p), w) IN
    Join([k \in 1..Len(ms) |-> "{" \o MonText(p[ms[k][1]][ms[k][2]], ms[k][1], ms[k][2], w, L) \o "}"], "+")
PolyText(fs, w, L) == LET p == Prod(fs) IN
    CASE w % 8 = 0 -> Factored(fs, w, L) [] w % 8 = 1 -> Expanded(p, w, L) [] w % 8 = 2 -> Distributed(fs, w, L)
      [] w % 8 = 3 -> Merged(fs, w, L) [] w % 8 = 4 -> Nested(p, w, L)
      [] w % 8 = 6 -> BracedSum(p, w, L)
      [] w % 8 = 5 -> "\\frac{" \o Expanded(PScale(p, 3), w, L) \o "}{3}" [] OTHER -> Expanded(PScale(p, 2), w, L) \o "-(" \o Expanded(p, w + 1, L) \o ")"
SplitFrac(n, d, w, L) == LET ms == Sorted(Mons(n), w) IN
    Join([k \in 1..Len(ms) |-> "\\frac{" \o MonText(n[ms[k][1]][ms[k][2]], ms[k][1], ms[k][2], w, L) \o "}{" \o d \o "}"], "+")
Text(f, w, L) ==
    IF f.d = <<>> THEN PolyText(f.n, w, L)
    ELSE LET d == PolyText(f.d, w \div 2, L) IN
         CASE w % 6 = 0 -> "\\frac{" \o PolyText(f.n, w, L) \o "}{" \o d \o "}"
           [] w % 6 = 1 -> "(" \o PolyText(f.n, w, L) \o ")/(" \o d \o ")"
           [] w % 6 = 2 -> "(" \o PolyText(f.n, w, L) \o ") \\cdot (" \o d \o ")^{-1}"
           [] w % 6 = 3 -> SplitFrac(Prod(f.n), d, w, L)
           [] w % 6 = 4 -> "-\\dfrac{" \o PolyText(<<PScale(Prod(f.n), -1)>>, w, L) \o "}{" \o d \o "}"
           [] OTHER -> "\\frac{(" \o PolyText(f.n, w, L) \o ")(" \o L[1] \o "+2" \o L[2] \o ")}{(" \o d \o ")(" \o L[1] \o "+2" \o L[2] \o ")}"

(* --------------------------------- mutation ------------------------------- *)
Move(p, m, k) == IF k[1] \in Ix /\ k[2] \in Ix /\ m # k THEN {[p EXCEPT ![m[1]][m[2]] = 0, ![k[1]][k[2]] = @ + p[m[1]][m[2]]]} ELSE {}
\* u^2 replaced by -1: a letter is no imaginary unit
Fold(p) == {[p EXCEPT ![m[1]][m[2]] = 0, ![m[1] - 2][m[2]] = @ - p[m[1]][m[2]]] : m \in {k \in Mons(p) : k[1] >= 2}}
Mutants(p) == {q \in UNION {{[p EXCEPT ![m[1]][m[2]] = @ + 1], [p EXCEPT ![m[1]][m[2]] = @ - 1], [p EXCEPT ![m[1]][m[2]] = -@]} : m \in Mons(p)}
                     \cup UNION {Move(p, m, <<m[1] + 1, m[2]>>) \cup Move(p, m, <<m[1], m[2] + 1>>) \cup Move(p, m, <<m[2], m[1]>>) : m \in Mons(p)}
                     \cup Fold(p) :
               Mons(q) # {} /\ Degree(q) <= D - 1}

Linears == {PLin(a, b, c) : a \in Coefs, b \in Coefs, c \in Consts} \cup {PQuad(a, b, c) : a \in Coefs, b \in Coefs, c \in Consts}
Factors == {p \in Linears : Cardinality(Mons(p)) >= 2}
Init == \E i \in 1..Len(Letters) : st = [phase |-> "truth", f |-> F(<<>>, <<>>), g |-> F(<<>>, <<>>), l |-> i, w |-> 0, v |-> 0]
Above == st.phase = "truth" /\ Len(st.f.n) < MaxNum /\ st.f.d = <<>> /\ \E p \in Factors : st' = [st EXCEPT !.f.n = Append(@, p)]
Below == st.phase = "truth" /\ Len(st.f.d) < MaxDen /\ st.f.n # <<>> /\ \E p \in Factors : st' = [st EXCEPT !.f.d = Append(@, p)]
Write == /\ st.phase = "truth" /\ st.f.n # <<>> /\ Degree(Prod(st.f.n)) + Degree(Prod(st.f.d)) <= 3
         /\ \E w \in (IF OnlyFold THEN {1} ELSE 0..23) : st' = [st EXCEPT !.phase = "prediction", !.g = st.f, !.w = w]
Rewrite == st.phase = "prediction" /\ \E v \in 0..23 : (IF OnlyFold THEN v \in {1, 5} ELSE Finish \/ v % 3 = st.w % 3) /\ st' = [st EXCEPT !.phase = "picked", !.v = v]
Mutate == /\ st.phase = "prediction"
          /\ \/ \E p \in (IF OnlyFold THEN Fold(Prod(st.f.n)) ELSE Mutants(Prod(st.f.n))) : st' = [st EXCEPT !.phase = "rewrite", !.g = F(<<p>>, st.f.d)]
             \/ st.f.d # <<>> /\ \E p \in Mutants(Prod(st.f.d)) : Degree(p) + Degree(Prod(st.f.n)) <= D /\ st' = [st EXCEPT !.phase = "rewrite", !.g = F(st.f.n, <<p>>)]
             \/ st.f.d = <<>> /\ ~OnlyFold /\ \E k \in 1..Len(st.f.n) : \E p \in Mutants(st.f.n[k]) : Degree(Prod(st.f.n)) < 4 /\ st' = [st EXCEPT !.phase = "rewrite", !.g = F([st.f.n EXCEPT ![k] = p], <<>>)]
WriteMutant == st.phase = "rewrite" /\ \E v \in 0..23 : (IF OnlyFold THEN v = 1 ELSE Finish \/ v % 8 = (st.w + Degree(Prod(st.g.n))) % 8) /\ st' = [st EXCEPT !.phase = "picked", !.v = v]
Done == st.phase = "picked" /\ st' = [st EXCEPT !.phase = "done"]
Next == Above \/ Below \/ Write \/ Rewrite \/ Mutate \/ WriteMutant \/ Done

(* ------------------------------- properties ------------------------------- *)
\* the writings rely on these identities
Distributes == st.phase = "done" /\ Len(st.f.n) = 2 => Prod(st.f.n) = PMul(st.f.n[2], st.f.n[1])
SameIsReflexive == st.phase = "done" => Same(st.f, st.f)
Safe == Degree(Prod(st.f.n)) + Degree(Prod(st.g.d)) <= D /\ Degree(Prod(st.g.n)) + Degree(Prod(st.f.d)) <= D
Emit == (st.phase = "done" /\ Safe) => LET L == Letters[st.l] IN
    Out([op |-> "eq", a |-> Text(st.f, st.w, L), b |-> Text(st.g, st.v, L), exp |-> Same(st.f, st.g),
         letter |-> L[1], fold |-> st.f.d = <<>> /\ Prod(st.g.n) \in Fold(Prod(st.f.n)), why |-> S(Len(st.f.n)) \o "/" \o S(Len(st.f.d)) \o " as " \o S(st.w % 8) \o "~" \o S(st.v % 8)])
=============================================================================
