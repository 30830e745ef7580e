------------------------------- MODULE Calculus -------------------------------
(* C19.  Calculus notation over polynomials.  An item is an expression text   *)
(* and the polynomial it denotes in at most one variable (coefficients from   *)
(* the constant one up); derivatives, integrals, sums, products, limits and   *)
(* evaluation bars are computed on the coefficients.                          *)
EXTENDS Base
CONSTANTS LeafTexts, VarNames, MaxOps, MaxCalc, MaxLeaves, Exhaustive
VARIABLES st

Pick(n) == IF Exhaustive THEN 0..(n - 1) ELSE {RandomElement(0..(n - 1))}
At(s, i) == s[(i % Len(s)) + 1]

(* ------------------------------- polynomials ------------------------------ *)
RECURSIVE Trim(_)
Trim(p) == IF Len(p) > 1 /\ Last(p) = QZero THEN Trim(SubSeq(p, 1, Len(p) - 1)) ELSE p
C(p, i) == IF i <= Len(p) THEN p[i] ELSE QZero
PAdd(p, q) == Trim([i \in 1..Max2(Len(p), Len(q)) |-> QAdd(C(p, i), C(q, i))])
PScale(p, c) == Trim([i \in 1..Len(p) |-> QMul(p[i], c)])
PSub(p, q) == PAdd(p, PScale(q, QI(-1)))
RECURSIVE QSum(_, _, _)
QSum(F(_), a, b) == IF a > b THEN QZero ELSE QAdd(F(a), QSum(F, a + 1, b))
PMul(p, q) == Trim([k \in 1..(Len(p) + Len(q) - 1) |-> LET T(i) == QMul(C(p, i), C(q, k + 1 - i)) IN QSum(T, 1, k)])
PDiff(p) == IF Len(p) = 1 THEN <<QZero>> ELSE Trim([i \in 1..(Len(p) - 1) |-> QMul(p[i + 1], QI(i))])
PAnti(p) == Trim([i \in 1..(Len(p) + 1) |-> IF i = 1 THEN QZero ELSE QDiv(p[i - 1], QI(i - 1))])
RECURSIVE PEval(_, _)
PEval(p, a) == IF Len(p) = 1 THEN p[1] ELSE QAdd(p[1], QMul(a, PEval(Tail(p), a)))
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN <<QOne>> ELSE PMul(p, PPow(p, n - 1))
RECURSIVE PProd(_, _, _)
PProd(F(_), a, b) == IF a > b THEN QOne ELSE QMul(F(a), PProd(F, a + 1, b))
RECURSIVE PCompose(_, _)
PCompose(p, q) == IF Len(p) = 1 THEN p ELSE PAdd(<<p[1]>>, PMul(q, PCompose(Tail(p), q)))

Fits(p) == Len(p) <= 5 /\ \A i \in 1..Len(p) : Abs(p[i][1]) < 300 /\ 60 % p[i][2] = 0

(* -------------------------------- variables ------------------------------- *)
Var(i, w, at, k) == [i |-> i, w |-> w, at |-> at, k |-> k]      \* k: a limit can name it
AllVars == <<Var("x", <<"x", "x">>, QI(3), TRUE), Var("t", <<"t", "t">>, QI(2), TRUE), Var("n", <<"n", "n">>, QI(4), TRUE), Var("theta", <<"\\theta ", "\\theta ">>, Q(5, 3), TRUE),
             Var("x_1", <<"x_1", "x_{1}">>, QI(4), FALSE), Var("k", <<"k", "k">>, QI(5), TRUE), Var("R", <<"R", "R">>, QI(-2), TRUE), Var("y_12", <<"y_{12}", "y_{12}">>, QI(-1), FALSE)>>
Vars == {i \in 1..Len(AllVars) : AllVars[i].i \in VarNames}
N(v, w) == At(AllVars[v].w, w)

(* ---------------------------------- items --------------------------------- *)
\* v: index of the variable, 0 for a constant; l: 0 sum, 1 product, 2 juxtaposed, 3 sign, 4 power, 5 atom
\* open: swallows a following factor; int: ends in or contains a differential at its own level
\* bd: the variables bound inside, which are not bound again
EB(t, v, p, l, f, z, o, d, b) == [t |-> t, v |-> IF Len(p) = 1 THEN 0 ELSE v, p |-> p, l |-> l, first |-> f, last |-> z, open |-> o, int |-> d, bd |-> b]
E(t, v, p, l, f, z, o, d) == EB(t, v, p, l, f, z, o, d, {})
Bound(e, b) == [e EXCEPT !.bd = @ \cup b]
Atom(t, v, p, f, z) == E(t, v, p, 5, f, z, FALSE, FALSE)
Const(t, q) == Atom(t, 0, <<q>>, IF Len(t) = 1 THEN "digit" ELSE "cmd", "digit")
X == <<QZero, QOne>>
VarLeaves(v) == {Atom(N(v, 0), v, X, "letter", "letter"), Atom(N(v, 1), v, X, "letter", "letter"), E(N(v, 0) \o "^2", v, <<QZero, QZero, QOne>>, 4, "letter", "letter", FALSE, FALSE), E(N(v, 1) \o "^{3}", v, <<QZero, QZero, QZero, QOne>>, 4, "letter", "letter", FALSE, FALSE),
                 E("2" \o N(v, 0), v, <<QZero, QI(2)>>, 2, "digit", "letter", FALSE, FALSE), Atom("(" \o N(v, 0) \o "+1)", v, <<QOne, QOne>>, "paren", "cmd"), Atom("(1-" \o N(v, 1) \o "^{2})", v, <<QOne, QZero, QI(-1)>>, "paren", "cmd"),
                 Atom("\\frac{" \o N(v, 0) \o "}{2}", v, <<QZero, Q(1, 2)>>, "cmd", "cmd")}
Consts == {Const("2", QI(2)), Const("3", QI(3)), Const("\\frac{1}{2}", Q(1, 2)), Const("5", QI(5)), Const("(5)_{2}", QI(20)), Const("(4)_{1+1}", QI(12)), Const("( 3+1 )_{3}", QI(24)), Const("(3)_{3}", QI(6))}
Plus(c) == IF c > 0 THEN "+" \o S(c) ELSE "-" \o S(-c)
\* one-sided limits at a jump, and limits of quotients far out
SideLimits(v, w) == LET n == N(v, w) IN {Bound(e, {v}) : e \in
  {Atom("\\left(\\lim_{" \o n \o At(<<"\\to ", "\\rightarrow ", " \\to ">>, w) \o S(c) \o "^{" \o s \o "}} \\frac{|" \o n \o Plus(-c) \o "|}{" \o n \o Plus(-c) \o "}\\right)", 0, <<QI(IF s = "+" THEN 1 ELSE -1)>>, "paren", "cmd") : c \in {2, -1}, s \in {"+", "-"}}
  \cup {Atom("(\\lim_{" \o n \o "\\to " \o far \o "} \\frac{" \o S(a) \o n \o "+1}{" \o S(c) \o n \o "-2})", 0, <<Q(a, c)>>, "paren", "cmd") : a \in {1, 3}, c \in {2, 5}, far \in {"\\infty", "-\\infty"}}
  \cup {Atom("(\\lim_{" \o n \o "\\to 2} \\frac{" \o n \o "^2-4}{" \o n \o "-2})", 0, <<QI(4)>>, "paren", "cmd")}}
Leaves(w) == {e \in Consts \cup UNION {VarLeaves(v) : v \in Vars} \cup (IF Exhaustive THEN {} ELSE UNION {SideLimits(v, w) : v \in {x \in Vars : AllVars[x].k}}) : LeafTexts = {} \/ e.t \in LeafTexts}

Group(e, w) == LET p == At(<<<<"(", ")">>, <<"\\left(", "\\right)">>, <<"( ", " )">>, <<"[", "]">>, <<"{", "}">>>>, w) IN Bound(Atom(p[1] \o e.t \o p[2], e.v, e.p, IF p[1] \in {"{"} THEN "cmd" ELSE "paren", "cmd"), e.bd)
Paren(e, w) == LET p == At(<<<<"(", ")">>, <<"\\left(", "\\right)">>>>, w) IN Bound(Atom(p[1] \o e.t \o p[2], e.v, e.p, "paren", "cmd"), e.bd)
Need(e, l, w) == IF e.l < l THEN Group(e, w) ELSE e
Shut(e, w) == IF e.open THEN Group(e, w) ELSE e
Same(a, b) == a.v = b.v \/ a.v = 0 \/ b.v = 0
V(a, b) == Max2(a.v, b.v)
\* two integrals side by side are parsed wrongly (recorded separately): all but one are put in brackets
Apart(a, b, w) == IF a.int /\ b.int THEN Group(a, w) ELSE a
Bin(op, a, b, p, l) == EB(a.t \o op \o b.t, V(a, b), p, l, a.first, b.last, b.open, a.int \/ b.int, a.bd \cup b.bd)
Sum(x, y, w) == LET a == Apart(x, y, w) b == Need(y, 1, w + 1) IN Bin(At(<<"+", " + ">>, w), a, b, PAdd(a.p, b.p), 0)
Dif(x, y, w) == LET a == Apart(x, y, w) b == Need(y, 1, w + 1) IN Bin(" - ", a, b, PSub(a.p, b.p), 0)
Mul(x, y, w) == LET a == Apart(Shut(Need(x, 1, w), w), y, w) b == Need(y, 2, w + 1) IN Bin(At(<<"*", " \\cdot ", " \\times ">>, w), a, b, PMul(a.p, b.p), 1)
Jux(x, y, w) == LET a1 == Apart(Shut(Need(x, 2, w), w), y, w) b0 == Need(y, 2, w + 1)
                    b == IF b0.first \in {"digit", "minus"} THEN Group(b0, w + 2) ELSE b0
                    a == IF a1.last = "letter" /\ b.first = "paren" THEN Group(a1, w) ELSE a1
                IN Bin(" ", a, b, PMul(a.p, b.p), 2)
Neg(x, w) == LET a == Need(x, 2, w) IN EB("-" \o a.t, a.v, PScale(a.p, QI(-1)), 2, "minus", a.last, a.open, a.int, a.bd)
Frac(x, c) == Bound(Atom("\\frac{" \o x.t \o "}{" \o S(c) \o "}", x.v, PScale(x.p, Q(1, c)), "cmd", "cmd"), x.bd)

(* --------------------------------- calculus ------------------------------- *)
D(w) == At(<<"d", "d", "\\mathrm{d}", "d ", "\\mathrm{d} ">>, w)
Diffl(v, w) == D(w) \o N(v, w)
OfVar(e) == (IF e.v = 0 THEN Vars ELSE {e.v}) \ e.bd
Brace(t, w) == IF Len(t) = 1 /\ w % 2 = 0 THEN t ELSE "{" \o t \o "}"
DerivOp(e, v, w) == LET b == IF e.first = "minus" THEN Group(e, w) ELSE Need(e, 2, w) IN
   E(At(<<"\\frac{d}{" \o Diffl(v, w) \o "}", "\\frac{\\partial}{\\partial " \o N(v, w) \o "}", "\\dfrac{\\mathrm{d}}{\\mathrm{d} " \o N(v, w) \o "}", "\\frac{d}{d " \o N(v, w) \o "} ">>, w) \o " " \o b.t,
     e.v, IF e.v = v THEN PDiff(e.p) ELSE <<QZero>>, 2, "cmd", b.last, TRUE, e.int)
\* d\left is read as a differential (recorded separately)
DerivFrac(e, v, w) == LET b == IF e.l < 2 \/ e.int \/ e.first # "letter" THEN Paren(e, IF w % 3 = 1 THEN w ELSE 0) ELSE e IN
   Atom(At(<<"\\frac{d" \o b.t \o "}{" \o Diffl(v, w) \o "}", "\\frac{\\partial " \o b.t \o "}{\\partial " \o N(v, w) \o "}", "\\tfrac{d " \o b.t \o "}{d" \o N(v, w) \o "}">>, w), e.v, IF e.v = v THEN PDiff(e.p) ELSE <<QZero>>, "cmd", "cmd")
\* bounds: a constant or a linear polynomial in another variable
Bounds(v) == {[t |-> S(c), p |-> <<QI(c)>>, v |-> 0] : c \in {0, 1, 2, 3, -1, -2}} \cup {[t |-> "\\frac{1}{2}", p |-> <<Q(1, 2)>>, v |-> 0]}
             \cup UNION {{[t |-> N(u, 0), p |-> X, v |-> u], [t |-> N(u, 1) \o "+1", p |-> <<QOne, QOne>>, v |-> u], [t |-> "2" \o N(u, 0), p |-> <<QZero, QI(2)>>, v |-> u]} : u \in Vars}
Integrate(e, v, a, b) == IF e.v = v \/ e.v = 0 THEN LET P == PAnti(e.p) IN PSub(PCompose(P, b.p), PCompose(P, a.p)) ELSE PScale(e.p, QSub(b.p[1], a.p[1]))
\* the variable of the result, -1 when there would be two
IntVar(e, v, a, b) == LET T1 == (IF e.v # v THEN {e.v} ELSE {}) \cup {a.v, b.v} S2 == T1 \ {0} IN IF S2 \cap e.bd # {} THEN -1 ELSE IF S2 = {} THEN 0 ELSE IF \A i, j \in S2 : i = j THEN (IF e.v # v /\ e.v # 0 /\ (a.v # 0 \/ b.v # 0) THEN -1 ELSE CHOOSE i \in S2 : TRUE) ELSE -1
Lims(a, b, w) == IF (w \div 3) % 3 = 2 THEN "^" \o Brace(b.t, w) \o "_" \o Brace(a.t, w) ELSE "_" \o Brace(a.t, w) \o "^" \o Brace(b.t, w)
IntEnd(e, v, a, b, w) == LET c == IF e.int THEN Group(e, w) ELSE e IN
   E("\\int" \o Lims(a, b, w) \o " " \o c.t \o At(<<" ", "\\,", " \\, ">>, w) \o Diffl(v, w), IntVar(e, v, a, b), Integrate(e, v, a, b), 2, "cmd", "cmd", FALSE, TRUE)
IntNum(e, v, a, b, w) == LET c == Need(e, 2, w) d == IF c.int \/ c.open THEN Group(c, w) ELSE c q == (w % 4) + 1 IN
   E("\\int" \o Lims(a, b, w) \o " \\frac{" \o (IF e.p = <<QOne>> THEN "" ELSE d.t \o " ") \o Diffl(v, w) \o "}{" \o S(q) \o "}", IntVar(e, v, a, b), PScale(Integrate(e, v, a, b), Q(1, q)), 2, "cmd", "cmd", FALSE, TRUE)
Series(name, e, v, lo, hi, w) == LET b == Need(e, 1, w) n == N(v, w)
                                     head == "\\" \o name \o (IF w % 3 = 2 THEN "^" \o Brace(S(hi), w) \o "_{" \o n \o "=" \o S(lo) \o "}" ELSE "_{" \o n \o At(<<"=", " = ">>, w) \o S(lo) \o "}^" \o Brace(S(hi), w))
                                     val(i) == PEval(e.p, QI(i)) cnt == hi - lo + 1
   IN E(head \o " " \o b.t, e.v, IF name = "sum" THEN (IF e.v \in {v, 0} THEN <<QSum(val, lo, hi)>> ELSE PScale(e.p, QI(cnt))) ELSE (IF e.v \in {v, 0} THEN <<PProd(val, lo, hi)>> ELSE PPow(e.p, cnt)), 2, "cmd", b.last, TRUE, e.int)
LimitAt(e, v, c, side, w) == LET b == Need(e, 1, w) IN
   E("\\lim_{" \o N(v, w) \o At(<<"\\to ", " \\to ", "\\rightarrow ">>, w) \o S(c) \o side \o "} " \o b.t, e.v, IF e.v \in {v, 0} THEN <<PEval(e.p, QI(c))>> ELSE e.p, 2, "cmd", b.last, TRUE, e.int)
Bar(e, v, c, w) == LET b == IF e.l < 4 \/ e.int THEN Paren(e, w) ELSE e IN
   Atom(b.t \o "|_{" \o N(v, w) \o "=" \o S(c) \o "}", e.v, IF e.v \in {v, 0} THEN <<PEval(e.p, QI(c))>> ELSE e.p, b.first, "cmd")
BarDiff(e, v, a, c, w) == LET b == IF e.l < 4 \/ e.int THEN Paren(e, w) ELSE e IN
   Atom(b.t \o "|^{" \o N(v, w) \o "=" \o S(c) \o "}_{" \o N(v, w) \o "=" \o S(a) \o "}", e.v, IF e.v \in {v, 0} THEN <<QSub(PEval(e.p, QI(c)), PEval(e.p, QI(a)))>> ELSE <<QZero>>, b.first, "cmd")

Other(v) == IF Exhaustive THEN {v} ELSE Vars
Pairs(v, w) == IF Exhaustive THEN {<<a, b>> \in Bounds(v) \X Bounds(v) : {a.t, b.t} \in {{"0", "2"}, {"1", "3"}, {"-1", "2"}} /\ a # b} \cup {<<a, b>> \in Bounds(v) \X Bounds(v) : a.t = "0" /\ b.v \notin {0, v}}
               ELSE LET T1 == SetToSeqB({b \in Bounds(v) : b.v # v}) IN {<<At(T1, w * 7 + 3), At(T1, w)>>}
Factor(p) == Len(p) <= 4 /\ \A i \in 1..Len(p) : Abs(p[i][1]) <= 12 /\ p[i][2] <= 6
Calcs(e, w) ==
  UNION {{Bound(DerivOp(e, v, w), e.bd), Bound(DerivFrac(e, v, w), e.bd)} : v \in (OfVar(e) \cup Other(e.v)) \ {0}}
  \cup UNION {UNION {IF IntVar(e, v, b[1], b[2]) = -1 THEN {} ELSE {Bound(IntEnd(e, v, b[1], b[2], w), e.bd \cup {v}), Bound(IntNum(e, v, b[1], b[2], w), e.bd \cup {v})} : b \in Pairs(v, w)} : v \in OfVar(e)}
  \cup UNION {{Bound(Series("sum", e, v, r[1], r[2], w), e.bd \cup {v}) : r \in (IF Exhaustive THEN {<<1, 3>>, <<0, 2>>} ELSE {At(<<<<1, 3>>, <<0, 2>>, <<2, 4>>, <<3, 3>>, <<1, 5>>>>, w)})} : v \in OfVar(e)}
  \cup UNION {{Bound(Series("prod", e, v, r[1], r[2], w), e.bd \cup {v}) : r \in (IF Factor(e.p) THEN {<<1, 3>>, <<2, 3>>} ELSE {})} : v \in OfVar(e)}
  \cup UNION {{Bound(LimitAt(e, v, c, s, w), e.bd \cup {v}) : c \in {2, 0, -1}, s \in (IF Exhaustive THEN {""} ELSE {At(<<"", "^{+}", "^{-}">>, w)})} : v \in {x \in OfVar(e) : AllVars[x].k}}
  \cup UNION {{Bound(b, e.bd) : b \in {Bar(e, v, 2, w), Bar(e, v, -1, w), BarDiff(e, v, 1, 3, w), BarDiff(e, v, -1, 0, w)}} : v \in OfVar(e)}
Good(e) == Fits(e.p) /\ Len(e.t) < 110 /\ Len(e.p) >= 1

(* -------------------------------- behaviour ------------------------------- *)
Init == st = [phase |-> "build", s |-> <<>>, ops |-> 0, ca |-> 0, lv |-> 0, w |-> 0]
L == Len(st.s)
Push == st.phase = "build" /\ L < 3 /\ st.lv < MaxLeaves /\ st.ops + L <= MaxOps /\ \E e \in (IF Exhaustive THEN Leaves(0) ELSE {RandomElement(Leaves(st.lv))}) : st' = [st EXCEPT !.s = Append(@, e), !.lv = @ + 1]
Style == ~Exhaustive /\ st.phase = "build" /\ L > 0 /\ st.w = 0 /\ \E w \in Pick(1000) : st' = [st EXCEPT !.w = w + 1]
W == IF Exhaustive THEN st.ops * 7 + st.ca * 5 + st.lv * 2 + Len(st.s[L].t) ELSE st.w
Ready == st.phase = "build" /\ L > 0 /\ (Exhaustive \/ st.w > 0)
Top(e) == SubSeq(st.s, 1, L - 1) \o <<e>>
Calc == Ready /\ st.ca < MaxCalc /\ \E e \in (IF Exhaustive THEN Calcs(st.s[L], W) ELSE {RandomElement(Calcs(st.s[L], W))}) : Good(e) /\ st' = [st EXCEPT !.s = Top(e), !.ca = @ + 1, !.w = 0]
Unaries(e, w) == {Neg(e, w), Frac(e, (w % 3) + 2)} \cup (IF Exhaustive THEN {} ELSE {Group(e, w)})
Unary == Ready /\ ~Exhaustive /\ \E e \in {RandomElement(Unaries(st.s[L], W))} : Good(e) /\ st' = [st EXCEPT !.s = Top(e), !.w = 0, !.ops = @ + 1]
Binaries(x, y, w) == {Sum(x, y, w), Dif(x, y, w), Mul(x, y, w), Jux(x, y, w)}
Binary == Ready /\ L >= 2 /\ Same(st.s[L - 1], st.s[L]) /\ \E e \in Binaries(st.s[L - 1], st.s[L], W) : Good(e) /\ st' = [st EXCEPT !.s = SubSeq(@, 1, L - 2) \o <<e>>, !.ops = @ + 1, !.w = 0]
Done == st.phase = "build" /\ L = 1 /\ st.ca >= 1 /\ st' = [st EXCEPT !.phase = "done"]
\* an antiderivative is only determined up to a constant: it is compared by its difference between two points
Anti == st.phase = "build" /\ L = 1 /\ Fits(PAnti(st.s[1].p)) /\ (Exhaustive \/ st.w > 0)
        /\ \E v \in OfVar(st.s[1]) : \E q \in 0..1 :
             LET e == st.s[1] c == IF e.int THEN Group(e, W) ELSE e d == LET x == Need(c, 2, W) IN IF x.open THEN Group(x, W) ELSE x IN
             st' = [st EXCEPT !.phase = "anti", !.s = <<Atom(IF q = 0 THEN "\\int " \o c.t \o At(<<" ", "\\,">>, W) \o Diffl(v, W) ELSE "\\int \\frac{" \o d.t \o " " \o Diffl(v, W) \o "}{3}", v, PAnti(IF q = 0 THEN e.p ELSE PScale(e.p, Q(1, 3))), "cmd", "cmd")>>]
\* known to be parsed wrongly
Marked == <<[a |-> "\\int_0^1 x dx + \\int_0^2 t dt", n |-> 5, d |-> 2], [a |-> "\\int_0^1 x dx - \\int_0^2 t dt", n |-> -3, d |-> 2], [a |-> "\\int_0^1 x dx \\cdot \\int_0^2 t dt", n |-> 1, d |-> 1], [a |-> "\\int_0^1 x dx \\int_0^2 t dt", n |-> 1, d |-> 1],
           [a |-> "\\frac{d\\left(x^2+1\\right)}{dx}", n |-> 6, d |-> 1]>>
Sides == st.phase = "build" /\ L = 0 /\ Exhaustive /\ \E v \in {x \in Vars : AllVars[x].k} : \E e \in SideLimits(v, 0) : st' = [st EXCEPT !.phase = "done", !.s = <<e>>]
Explicit == st.phase = "build" /\ L = 0 /\ Exhaustive /\ \E i \in 1..Len(Marked) : st' = [st EXCEPT !.phase = "done", !.s = <<Atom(Marked[i].a, 0, <<Q(Marked[i].n, Marked[i].d)>>, "cmd", "cmd")>>]
Next == Push \/ Style \/ Calc \/ Unary \/ Binary \/ Done \/ Anti \/ Sides \/ Explicit

(* ------------------------------- properties ------------------------------- *)
Trimmed == \A i \in 1..L : LET e == st.s[i] IN Trim(e.p) = e.p /\ (e.v = 0) = (Len(e.p) = 1)
Fundamental == \A i \in 1..L : LET e == st.s[i] IN PDiff(PAnti(e.p)) = e.p /\ (Fits(PAnti(PDiff(e.p))) => PSub(e.p, PAnti(PDiff(e.p))) = <<e.p[1]>>)
Additive == \A i \in 1..L : LET e == st.s[i] b(c) == [p |-> <<QI(c)>>, v |-> 0] v == IF e.v = 0 THEN CHOOSE x \in Vars : TRUE ELSE e.v IN
              PAdd(Integrate(e, v, b(0), b(1)), Integrate(e, v, b(1), b(2))) = Integrate(e, v, b(0), b(2))
At1(e) == IF e.v = 0 THEN e.p[1] ELSE PEval(e.p, AllVars[e.v].at)
Emit == /\ (st.phase = "done" => LET e == st.s[1] q == At1(e) IN Out([op |-> "value", a |-> e.t, n |-> q[1], d |-> q[2], why |-> S(st.ca)]))
        /\ (st.phase = "anti" /\ st.s[1].v # 0 => LET e == st.s[1] q == QSub(PEval(e.p, QI(2)), PEval(e.p, QI(-1))) IN
              Out([op |-> "anti", a |-> e.t, v |-> AllVars[e.v].i, n |-> q[1], d |-> q[2], why |-> "anti"]))
=============================================================================
