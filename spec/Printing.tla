------------------------------- MODULE Printing -------------------------------
(* C28.  Printing.  A stack machine builds expression trees together with     *)
(* their exact value: symbols have fixed values, functions other than the     *)
(* elementary integer ones are interpreted arbitrarily but oddly or evenly,   *)
(* and what is a polynomial in x or z keeps its coefficients, so that limits, *)
(* integrals, sums, products and derivatives can be computed.  The driver     *)
(* prints the tree with the real printers and reads the text back.            *)
EXTENDS Base
CONSTANTS LeafNames, MaxOps, MaxLeaves, Exhaustive, Wraps
VARIABLES st

(* ------------------------------- polynomials ------------------------------ *)
RECURSIVE Trim(_)
Trim(p) == IF Len(p) > 1 /\ Last(p) = QZero THEN Trim(SubSeq(p, 1, Len(p) - 1)) ELSE p
C(p, i) == IF i <= Len(p) THEN p[i] ELSE QZero
PAdd(p, q) == Trim([i \in 1..Max2(Len(p), Len(q)) |-> QAdd(C(p, i), C(q, i))])
PScale(p, c) == Trim([i \in 1..Len(p) |-> QMul(p[i], c)])
RECURSIVE QSum(_, _, _)
QSum(F(_), a, b) == IF a > b THEN QZero ELSE QAdd(F(a), QSum(F, a + 1, b))
PMul(p, q) == Trim([k \in 1..(Len(p) + Len(q) - 1) |-> LET T(i) == QMul(C(p, i), C(q, k + 1 - i)) IN QSum(T, 1, k)])
PDiff(p) == IF Len(p) = 1 THEN <<QZero>> ELSE Trim([i \in 1..(Len(p) - 1) |-> QMul(p[i + 1], QI(i))])
PAnti(p) == Trim([i \in 1..(Len(p) + 1) |-> IF i = 1 THEN QZero ELSE QDiv(p[i - 1], QI(i - 1))])
RECURSIVE PEval(_, _)
PEval(p, a) == IF Len(p) = 1 THEN p[1] ELSE QAdd(p[1], QMul(a, PEval(Tail(p), a)))
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN <<QOne>> ELSE PMul(p, PPow(p, n - 1))
RECURSIVE PProd(_, _, _)
PProd(F(_), a, b) == IF a > b THEN QOne ELSE QMul(F(a), PProd(F, a + 1, b))
RECURSIVE PCompose(_, _)
PCompose(p, q) == IF Len(p) = 1 THEN p ELSE PAdd(<<p[1]>>, PMul(q, PCompose(Tail(p), q)))
Fits(p) == Len(p) <= 4 /\ \A i \in 1..Len(p) : Abs(p[i][1]) < 200 /\ 12 % p[i][2] = 0

(* ---------------------------------- items --------------------------------- *)
Vars == <<[n |-> "x", at |-> QI(3)], [n |-> "z", at |-> QI(2)]>>
\* t: tree; v: variable of the polynomial p (0: constant, p = <<>>: not a polynomial); q: value; bd: variables bound inside; fv: occurring free
\* pos: the sign of the value does not depend on the variables' values being special (unused: 0)
It(t, v, p, q, bd, fv, tex) == [t |-> t, v |-> IF Len(p) = 1 THEN 0 ELSE v, p |-> p, q |-> q, bd |-> bd, fv |-> fv, tex |-> tex]
ConstI(t, q, bd, fv, tex) == It(t, 0, IF fv = {} THEN <<q>> ELSE <<>>, q, bd, fv, tex)
Num(n, d) == ConstI(<<"num", n, d>>, Q(n, d), {}, {}, TRUE)
Sym(n, q) == ConstI(<<"sym", n>>, q, {}, {}, TRUE)
VarI(v) == It(<<"sym", Vars[v].n>>, v, <<QZero, QOne>>, Vars[v].at, {}, {v}, TRUE)
Named == [x |-> VarI(1), z |-> VarI(2), y |-> Sym("y", QI(-2)), n |-> Sym("n", QI(4)), x1 |-> Sym("x_1", QI(4)), al |-> Sym("alpha", Q(5, 3)), t |-> Sym("t", QI(9)), A |-> Sym("A", Q(1, 2)),
          one |-> Num(1, 1), two |-> Num(2, 1), three |-> Num(3, 1), m2 |-> Num(-2, 1), half |-> Num(1, 2), m34 |-> Num(-3, 4), ten |-> Num(10, 1), zero |-> Num(0, 1), k12 |-> Num(12, 1), u |-> Sym("x_{12}", QI(8))]
LeafSet == IF LeafNames = {} THEN DOMAIN Named ELSE LeafNames

Both(a, b, t, p, q) == It(t, Max2(a.v, b.v), IF a.p # <<>> /\ b.p # <<>> /\ (a.v = b.v \/ a.v = 0 \/ b.v = 0) THEN p ELSE <<>>, q, a.bd \cup b.bd, a.fv \cup b.fv, a.tex /\ b.tex)
Pol(a, b) == a.p # <<>> /\ b.p # <<>>
AddE(a, b) == Both(a, b, <<"Add", a.t, b.t>>, IF Pol(a, b) THEN PAdd(a.p, b.p) ELSE <<>>, QAdd(a.q, b.q))
SubE(a, b) == Both(a, b, <<"Sub", a.t, b.t>>, IF Pol(a, b) THEN PAdd(a.p, PScale(b.p, QI(-1))) ELSE <<>>, QSub(a.q, b.q))
MulE(a, b) == Both(a, b, <<"Mul", a.t, b.t>>, IF Pol(a, b) THEN PMul(a.p, b.p) ELSE <<>>, QMul(a.q, b.q))
DivE(a, b) == It(<<"Div", a.t, b.t>>, a.v, IF a.p # <<>> /\ b.fv = {} THEN PScale(a.p, QInv(b.q)) ELSE <<>>, QDiv(a.q, b.q), a.bd \cup b.bd, a.fv \cup b.fv, a.tex /\ b.tex)
NegE(a) == [a EXCEPT !.t = <<"Neg", a.t>>, !.p = IF @ = <<>> THEN @ ELSE PScale(@, QI(-1)), !.q = QNeg(@)]
\* what is no polynomial unless its operands are free of x and z
Opaque(t, as, q) == LET bd == UNION {as[i].bd : i \in DOMAIN as} fv == UNION {as[i].fv : i \in DOMAIN as} IN ConstI(t, q, bd, fv, \A i \in DOMAIN as : as[i].tex)
PowI(a, n) == IF n > 0 /\ a.p # <<>> THEN It(<<"Pow", a.t, <<"num", n, 1>>>>, a.v, PPow(a.p, n), QPow(a.q, n), a.bd, a.fv, a.tex) ELSE Opaque(<<"Pow", a.t, <<"num", n, 1>>>>, <<a>>, QPow(a.q, n))
PowT(a, b) == Opaque(<<"Pow", a.t, b.t>>, <<a, b>>, QPow(a.q, b.q[1]))
\* exact roots
Roots(q, n) == {r \in {Q(i, j) : i \in 1..12, j \in 1..4} : QPowN(r, n) = q}
PowR(a, m, n, r) == Opaque(<<"Pow", a.t, <<"num", m, n>>>>, <<a>>, QPow(r, m))
RECURSIVE Factorial(_)
Factorial(k) == IF k <= 0 THEN 1 ELSE k * Factorial(k - 1)
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE Binomial(n - 1, k - 1) + Binomial(n - 1, k)
FactE(a) == Opaque(<<"factorial", a.t>>, <<a>>, QI(Factorial(a.q[1])))
BinomE(a, b) == Opaque(<<"binomial", a.t, b.t>>, <<a, b>>, QI(Binomial(a.q[1], b.q[1])))
AbsE(a) == Opaque(<<"Abs", a.t>>, <<a>>, QAbs(a.q))
FloorE(a) == Opaque(<<"floor", a.t>>, <<a>>, QI(QFloor(a.q)))
CeilE(a) == Opaque(<<"ceiling", a.t>>, <<a>>, QI(QCeil(a.q)))
MaxE(a, b) == Opaque(<<"Max", a.t, b.t>>, <<a, b>>, IF QLt(a.q, b.q) THEN b.q ELSE a.q)
MinE(a, b) == Opaque(<<"Min", a.t, b.t>>, <<a, b>>, IF QLt(a.q, b.q) THEN a.q ELSE b.q)
\* functions: odd or even; asin and its like are odd, acos neither, but nothing is taken out of it
H(f, a) == LET n == ((f * 31 + Abs(a[1]) * 17 + a[2] * 7) % 97) + 2 IN Q(n, 3)
Fns == <<<<"sin", 1, "odd">>, <<"cos", 2, "even">>, <<"tan", 3, "odd">>, <<"csc", 4, "odd">>, <<"sec", 5, "even">>, <<"cot", 6, "odd">>, <<"asin", 7, "odd">>, <<"atan", 9, "odd">>, <<"acsc", 10, "odd">>, <<"acot", 12, "odd">>, <<"sinh", 13, "odd">>, <<"cosh", 14, "even">>,
         <<"tanh", 15, "odd">>, <<"asinh", 16, "odd">>, <<"atanh", 18, "odd">>, <<"acos", 8, "none">>, <<"acosh", 17, "none">>, <<"asec", 11, "none">>, <<"log", 21, "none">>, <<"exp", 19, "none">>, <<"f", 25, "none">>>>
FnV(i, a) == LET k == Fns[i] h == H(k[2], a) IN IF k[3] = "odd" /\ a[1] <= 0 THEN (IF a = QZero THEN QZero ELSE QNeg(h)) ELSE IF k[3] = "none" /\ a[1] < 0 THEN QAdd(h, QOne) ELSE h
\* f(x+1) in LaTeX is a product
FnE(i, a) == [Opaque(<<"fn", Fns[i][1], a.t>>, <<a>>, FnV(i, a.q)) EXCEPT !.tex = @ /\ (Fns[i][1] = "f" => a.t[1] = "sym")]
\* log to another base
LogB(a, b) == Opaque(<<"logb", a.t, b.t>>, <<a, b>>, QDiv(FnV(19, a.q), FnV(19, b.q)))

(* --------------------------- operators with a body ------------------------- *)
CanBind(e, v) == e.p # <<>> /\ e.v \in {0, v} /\ v \notin e.bd
Ends(a, b, e, v) == a.p # <<>> /\ b.p # <<>> /\ v \notin (a.fv \cup b.fv \cup a.bd \cup b.bd) /\ (e.bd \cap (a.fv \cup b.fv)) = {} /\ Len(a.p) <= 2 /\ Len(b.p) <= 2 /\ (a.v = 0 \/ b.v = 0 \/ a.v = b.v)
At1(p, v) == IF Len(p) = 1 THEN p[1] ELSE PEval(p, Vars[v].at)
Closed(t, p, w, e, as, v, tex) == LET fv == (e.fv \ {v}) \cup UNION {as[i].fv : i \in DOMAIN as} IN
   It(t, w, p, At1(p, w), e.bd \cup {v} \cup UNION {as[i].bd : i \in DOMAIN as}, fv, e.tex /\ tex /\ \A i \in DOMAIN as : as[i].tex)
\* directly nested operators of one kind are printed as one (\iint and the like), which is not notation that is read
Alone(e, k) == e.t[1] \notin k
IntE(e, v, a, b) == LET P == PAnti(e.p) IN Closed(<<"Int", e.t, Vars[v].n, a.t, b.t>>, PAdd(PCompose(P, b.p), PScale(PCompose(P, a.p), QI(-1))), Max2(a.v, b.v), e, <<a, b>>, v, Alone(e, {"Int", "IInt"}))
Indef(e, v) == [Closed(<<"IInt", e.t, Vars[v].n>>, PAnti(e.p), v, e, <<>>, v, Alone(e, {"Int", "IInt"})) EXCEPT !.fv = @ \cup {v}, !.bd = e.bd]
SumE(e, v, lo, hi) == LET f(i) == PEval(e.p, QI(i)) IN Closed(<<"Sum", e.t, Vars[v].n, <<"num", lo, 1>>, <<"num", hi, 1>>>>, <<QSum(f, lo, hi)>>, 0, e, <<>>, v, Alone(e, {"Sum"}))
\* up to n, whose value is 4
SumN(e, v, lo) == LET f(i) == PEval(e.p, QI(i)) IN Closed(<<"Sum", e.t, Vars[v].n, <<"num", lo, 1>>, <<"sym", "n">>>>, <<QSum(f, lo, 4)>>, 0, e, <<>>, v, Alone(e, {"Sum"}))
ProdE(e, v, lo, hi) == LET f(i) == PEval(e.p, QI(i)) IN Closed(<<"Prod", e.t, Vars[v].n, <<"num", lo, 1>>, <<"num", hi, 1>>>>, <<PProd(f, lo, hi)>>, 0, e, <<>>, v, Alone(e, {"Prod"}))
LimE(e, v, a, s) == Closed(<<"Lim", e.t, Vars[v].n, a.t, s>>, PCompose(e.p, a.p), a.v, e, <<a>>, v, s # "+-")
DiffE(e, v, k) == LET p == IF k = 1 THEN PDiff(e.p) ELSE PDiff(PDiff(e.p)) IN [Closed(<<"D", e.t, Vars[v].n, k>>, p, v, e, <<>>, v, k = 1 /\ e.t[1] # "D") EXCEPT !.fv = @ \cup {v}, !.bd = e.bd]

Good(e) == Small(e.q) /\ Abs(e.q[1]) < 5000 /\ e.q[2] < 5000 /\ (e.p = <<>> \/ Fits(e.p))
Tiny(e) == Abs(e.q[1]) < 60 /\ e.q[2] < 40
Narrow(p) == Len(p) <= 3 /\ \A i \in 1..Len(p) : Abs(p[i][1]) <= 12 /\ p[i][2] <= 6

Pows(a) == IF ~Tiny(a) THEN {} ELSE {PowI(a, n) : n \in {m \in {2, 3, -1, -2} : (m > 0 \/ a.q # QZero) /\ (m < 3 \/ a.p = <<>> \/ Narrow(a.p))}}
           \cup (IF a.q[1] > 0 THEN UNION {{PowR(a, m, 2, r) : m \in {1, -1, 3}} : r \in Roots(a.q, 2)} \cup UNION {{PowR(a, m, 3, r) : m \in {1, 2}} : r \in Roots(a.q, 3)} ELSE {})
Unaries(a) == {NegE(a), AbsE(a), FloorE(a), CeilE(a)} \cup Pows(a) \cup (IF QIsInt(a.q) /\ a.q[1] \in 0..6 THEN {FactE(a)} ELSE {}) \cup {FnE(i, a) : i \in {j \in 1..Len(Fns) : a.fv # {} \/ a.t[1] = "sym"}}
Binaries(a, b) == (IF Tiny(a) /\ Tiny(b) THEN {AddE(a, b), SubE(a, b), MulE(a, b)} \cup (IF b.q # QZero THEN {DivE(a, b)} ELSE {}) ELSE {})
                  \cup (IF Tiny(a) /\ QIsInt(b.q) /\ b.q[1] \in -2..3 /\ Abs(a.q[1]) < 10 /\ a.q[2] < 10 /\ (a.q # QZero \/ b.q[1] > 0) THEN {PowT(a, b)} ELSE {})
                  \cup (IF QIsInt(a.q) /\ QIsInt(b.q) /\ a.q[1] \in 0..8 /\ b.q[1] \in 0..8 THEN {BinomE(a, b)} ELSE {})
                  \cup {MaxE(a, b), MinE(a, b)}
                  \cup (IF b.t[1] = "num" /\ b.q \in {QI(2), QI(10), QI(3)} /\ a.t[1] # "num" THEN {LogB(a, b)} ELSE {})
Bodies(e, a, b) == UNION {(IF Ends(a, b, e, v) /\ Narrow(e.p) /\ a.q # b.q THEN {IntE(e, v, a, b)} ELSE {})
                          \cup (IF Ends(a, a, e, v) THEN {LimE(e, v, a, s) : s \in {"+", "-", "+-"}} ELSE {}) : v \in {w \in 1..2 : CanBind(e, w)}}
Bodies1(e) == UNION {{Indef(e, v), DiffE(e, v, 1), DiffE(e, v, 2)} \cup (IF Narrow(e.p) THEN {SumE(e, v, 1, 3), SumE(e, v, 0, 2), SumN(e, v, 1), SumN(e, v, 2), ProdE(e, v, 1, 2), ProdE(e, v, 0, 1)} ELSE {}) : v \in {w \in 1..2 : CanBind(e, w)}}

(* -------------------------------- behaviour ------------------------------- *)
One(X) == IF Exhaustive \/ X = {} THEN X ELSE {RandomElement(X)}
Init == st = [phase |-> "build", s |-> <<>>, ops |-> 0, lv |-> 0, w |-> ""]
L == Len(st.s)
Building == st.phase = "build"
Room == Building /\ st.ops < MaxOps
\* enough operations are left to bring the stack down to one
Push == Building /\ st.lv < MaxLeaves /\ L < 4 /\ \E n \in One(LeafSet) : st' = [st EXCEPT !.s = Append(@, Named[n]), !.lv = @ + 1]
Put(k, e) == st' = [st EXCEPT !.s = Append(SubSeq(@, 1, L - k), e), !.ops = @ + 1]
Unary == Room /\ L >= 1 /\ \E e \in One({u \in Unaries(st.s[L]) : Good(u)}) : Put(1, e)
Binary == Room /\ L >= 2 /\ \E e \in One({u \in Binaries(st.s[L - 1], st.s[L]) : Good(u)}) : Put(2, e)
Body1 == Room /\ L >= 1 /\ \E e \in One({u \in Bodies1(st.s[L]) : Good(u)}) : Put(1, e)
Body3 == Room /\ L >= 3 /\ \E e \in One({u \in Bodies(st.s[L], st.s[L - 2], st.s[L - 1]) : Good(u)}) : Put(3, e)
Rels == {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}
Done == Building /\ st.ops > 0 /\ (Exhaustive => st.ops = MaxOps \/ L = 1) /\ \E w \in {x \in Wraps : CASE x = "expr" -> L = 1 [] x \in Rels -> L = 2 [] x = "list" -> L \in {2, 3} [] x = "matrix" -> L = 4 [] x = "row" -> L \in {2, 3}} :
        st' = [st EXCEPT !.phase = "done", !.w = w]
Next == Push \/ Unary \/ Binary \/ Body1 \/ Body3 \/ Done

(* ------------------------------- properties ------------------------------- *)
\* the value is that of the polynomial, and a derivative undoes an antiderivative
Agree == \A i \in 1..L : LET e == st.s[i] IN e.p # <<>> => e.q = At1(e.p, e.v)
Fundamental == \A i \in 1..L : LET e == st.s[i] IN e.p # <<>> => PDiff(PAnti(e.p)) = e.p
Scoped == \A i \in 1..L : LET e == st.s[i] IN e.v # 0 => e.v \in e.fv
Emit == st.phase = "done" => Out([op |-> st.w, ts |-> Map(LAMBDA e : e.t, st.s), qs |-> Map(LAMBDA e : e.q, st.s), tex |-> \A i \in 1..L : st.s[i].tex, why |-> st.s[1].t[1]])
=============================================================================
