------------------------------- MODULE MatExprs -------------------------------
(* C20.  Matrix notation: a stack machine writing matrix expressions and      *)
(* computing them exactly.  A symbolic entry counts with a fixed value of its *)
(* letter; what holds only generically (rank, reduction, inverse) is applied  *)
(* to matrices of numbers.                                                    *)
EXTENDS Base
CONSTANTS Leafs, MaxOps, MaxLeaves, Mode     \* Mode: "one" (every leaf, operation), "steps" (elementary operations), "deep" (random)
VARIABLES st

Exhaustive == Mode # "deep"
Pick(n) == IF Exhaustive THEN 0..(n - 1) ELSE {RandomElement(0..(n - 1))}
At(s, i) == s[(i % Len(s)) + 1]

(* -------------------------------- matrices -------------------------------- *)
Rows(m) == Len(m)
Cols(m) == Len(m[1])
Mat(r, c, F(_, _)) == [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]
T(m) == LET F(i, j) == m[j][i] IN Mat(Cols(m), Rows(m), F)
MAdd(a, b) == LET F(i, j) == QAdd(a[i][j], b[i][j]) IN Mat(Rows(a), Cols(a), F)
MScale(a, q) == LET F(i, j) == QMul(a[i][j], q) IN Mat(Rows(a), Cols(a), F)
RECURSIVE Dot(_, _, _, _, _)
Dot(a, b, i, j, n) == IF n = 0 THEN QZero ELSE QAdd(QMul(a[i][n], b[n][j]), Dot(a, b, i, j, n - 1))
MMul(a, b) == LET F(i, j) == Dot(a, b, i, j, Cols(a)) IN Mat(Rows(a), Cols(b), F)
Eye(n) == LET F(i, j) == IF i = j THEN QOne ELSE QZero IN Mat(n, n, F)
RECURSIVE MPow(_, _)
MPow(a, n) == IF n = 0 THEN Eye(Rows(a)) ELSE MMul(MPow(a, n - 1), a)
Minor(m, i, j) == LET F(r, c) == m[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1] IN Mat(Rows(m) - 1, Cols(m) - 1, F)
RECURSIVE Det(_), DetRow(_, _)
DetRow(m, j) == IF j > Cols(m) THEN QZero ELSE QAdd(QMul(QMul(QI(IF j % 2 = 1 THEN 1 ELSE -1), m[1][j]), Det(Minor(m, 1, j))), DetRow(m, j + 1))
Det(m) == IF Rows(m) = 1 THEN m[1][1] ELSE DetRow(m, 1)
Inv(m) == IF Rows(m) = 1 THEN <<<<QInv(m[1][1])>>>>
          ELSE LET d == QInv(Det(m)) F(i, j) == QMul(QMul(QI(IF (i + j) % 2 = 0 THEN 1 ELSE -1), d), Det(Minor(m, j, i))) IN Mat(Rows(m), Rows(m), F)
RECURSIVE Trace(_, _)
Trace(m, n) == IF n = 0 THEN QZero ELSE QAdd(m[n][n], Trace(m, n - 1))
\* reduction to row echelon form: column j, next pivot row p
Swap(m, i, k) == [m EXCEPT ![i] = m[k], ![k] = m[i]]
RowScale(m, i, q) == [m EXCEPT ![i] = [j \in 1..Cols(m) |-> QMul(q, m[i][j])]]
RowAdd(m, i, k, q) == [m EXCEPT ![i] = [j \in 1..Cols(m) |-> QAdd(m[i][j], QMul(q, m[k][j]))]]
RECURSIVE Clear(_, _, _, _), Reduce(_, _, _)
Clear(m, p, j, i) == IF i > Rows(m) THEN m ELSE Clear(IF i = p THEN m ELSE RowAdd(m, i, p, QNeg(m[i][j])), p, j, i + 1)
Reduce(m, p, j) == IF p > Rows(m) \/ j > Cols(m) THEN m
                   ELSE LET c == {i \in p..Rows(m) : m[i][j] # QZero} IN
                        IF c = {} THEN Reduce(m, p, j + 1)
                        ELSE LET i == CHOOSE x \in c : \A y \in c : x <= y
                                 a == Swap(m, p, i)
                             IN Reduce(Clear(RowScale(a, p, QInv(a[p][j])), p, j, 1), p + 1, j + 1)
Rref(m) == Reduce(m, 1, 1)
Rank(m) == Cardinality({i \in 1..Rows(m) : \E j \in 1..Cols(m) : Rref(m)[i][j] # QZero})
HStack(a, b) == [i \in 1..Rows(a) |-> a[i] \o b[i]]
VStack(a, b) == a \o b
Diag(a, b) == LET F(i, j) == IF i <= Rows(a) /\ j <= Cols(a) THEN a[i][j] ELSE IF i > Rows(a) /\ j > Cols(a) THEN b[i - Rows(a)][j - Cols(a)] ELSE QZero
              IN Mat(Rows(a) + Rows(b), Cols(a) + Cols(b), F)
RECURSIVE Norm2(_, _, _)
Norm2(m, i, j) == IF i = 0 THEN QZero ELSE IF j = 0 THEN Norm2(m, i - 1, Cols(m)) ELSE QAdd(QMul(m[i][j], m[i][j]), Norm2(m, i, j - 1))
Bound(m, n, d) == \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : Abs(m[i][j][1]) <= n /\ m[i][j][2] <= d
Fits(m) == Bound(m, 400, 36) /\ Rows(m) <= 4 /\ Cols(m) <= 5
\* small enough for determinants and reductions
Tame(m) == Rows(m) <= 3 /\ Cols(m) <= 4 /\ (IF Rows(m) <= 2 THEN Bound(m, 60, 6) ELSE Bound(m, 9, 2))

(* ---------------------------------- items --------------------------------- *)
\* k: "m" or "s"; l: 0 sum, 1 product, 2 juxtaposed, 3 sign, 4 transposed, 5 power, 6 atom; sy: has letters
E(t, k, m, l, f, z, sy) == [t |-> t, k |-> k, m |-> m, l |-> l, first |-> f, last |-> z, sy |-> sy]
Sc(t, q, f, z, sy) == E(t, "s", <<<<q>>>>, 6, f, z, sy)
Scalar(x) == x.m[1][1]
Cell(t, q, sy) == [t |-> t, q |-> q, sy |-> sy]
\* x = 3, y = -2, k = 5/2
Cells == <<Cell("1", QOne, FALSE), Cell("2", QI(2), FALSE), Cell("-1", QI(-1), FALSE), Cell("0", QZero, FALSE), Cell("3", QI(3), FALSE), Cell("\\frac{1}{2}", Q(1, 2), FALSE), Cell("-2", QI(-2), FALSE), Cell("1+1", QI(2), FALSE),
           Cell("-\\frac{3}{2}", Q(-3, 2), FALSE), Cell("4", QI(4), FALSE), Cell("5/2", Q(5, 2), FALSE), Cell("x", QI(3), TRUE), Cell("y", QI(-2), TRUE), Cell("2x", QI(6), TRUE), Cell("x+y", QOne, TRUE), Cell("-y", QI(2), TRUE),
           Cell("y^2", QI(4), TRUE), Cell("\\frac{x}{2}", Q(3, 2), TRUE), Cell("x y", QI(-6), TRUE), Cell("1-x", QI(-2), TRUE), Cell("\\begin{vmatrix}1&2\\\\3&x\\end{vmatrix}", QI(-3), TRUE), Cell("2 \\cdot 3", QI(6), FALSE)>>
Plain == 11
Kinds == <<<<"\\begin{bmatrix}", "\\end{bmatrix}">>, <<"\\begin{pmatrix}", "\\end{pmatrix}">>, <<"\\begin{matrix}", "\\end{matrix}">>, <<"\\left[\\begin{matrix}", "\\end{matrix}\\right]">>, <<"\\left(\\begin{matrix}", "\\end{matrix}\\right)">>,
           <<"\\begin{bmatrix} ", " \\end{bmatrix}">>, <<"\\begin{pmatrix} ", "\\\\ \\end{pmatrix}">>, <<"\\begin{bmatrix}", "\\\\\\end{bmatrix}">>>>
Body(c, w) == Join([i \in 1..Len(c) |-> Join([j \in 1..Len(c[i]) |-> c[i][j].t], At(<<"&", " & ">>, w))], At(<<"\\\\", " \\\\ ", "\\\\ ">>, w))
Value(c) == [i \in 1..Len(c) |-> [j \in 1..Len(c[i]) |-> c[i][j].q]]
Sy(c) == \E i \in 1..Len(c) : \E j \in 1..Len(c[i]) : c[i][j].sy
KindAt(w) == IF Exhaustive /\ Mode = "steps" THEN At(Kinds, 0) ELSE At(Kinds, w)
Literal(c, w) == LET k == KindAt(w) IN E(k[1] \o Body(c, w) \o k[2], "m", Value(c), 6, "cmd", "cmd", Sy(c))
DetLiteral(c, w) == Sc("\\begin{vmatrix}" \o Body(c, w) \o At(<<"", "\\\\">>, w) \o "\\end{vmatrix}", Det(Value(c)), "cmd", "cmd", Sy(c))
N(i) == Cells[i]
Named == [A |-> <<<<N(1), N(2)>>, <<N(5), N(10)>>>>, B |-> <<<<N(4), N(3)>>, <<N(6), N(2)>>>>, C |-> <<<<N(1), N(2)>>, <<N(2), N(10)>>>>, R |-> <<<<N(1), N(7)>>>>, K |-> <<<<N(5)>>, <<N(10)>>>>,
          X |-> <<<<N(12), N(1)>>, <<N(2), N(15)>>>>, W |-> <<<<N(1), N(4), N(2)>>, <<N(3), N(5), N(1)>>>>, H |-> <<<<N(2), N(1), N(4)>>, <<N(1), N(5), N(3)>>, <<N(6), N(4), N(1)>>>>, O |-> <<<<N(5)>>>>, Z |-> <<<<N(4), N(4)>>, <<N(4), N(4)>>>>,
          Y |-> <<<<N(4), N(1), N(13)>>>>, G |-> <<<<N(1), N(2), N(1)>>, <<N(2), N(10), N(2)>>, <<N(5), N(4), N(1)>>>>]
Scalars == {Sc("2", QI(2), "digit", "digit", FALSE), Sc("\\frac{1}{2}", Q(1, 2), "cmd", "cmd", FALSE), Sc("x", QI(3), "letter", "letter", TRUE), Sc("3", QI(3), "digit", "digit", FALSE), Sc("(-2)", QI(-2), "paren", "paren", FALSE), Sc("y", QI(-2), "letter", "letter", TRUE)}

Wrap(e, w) == LET p == At(<<<<"(", ")">>, <<"\\left(", "\\right)">>, <<"( ", " )">>>>, w) IN E(p[1] \o e.t \o p[2], e.k, e.m, 6, "paren", "paren", e.sy)
Need(e, l, w) == IF e.l < l THEN Wrap(e, w) ELSE e
Bin(op, a, b, m, k, l) == E(a.t \o op \o b.t, k, m, l, a.first, b.last, a.sy \/ b.sy)
SameShape(a, b) == a.k = b.k /\ Rows(a.m) = Rows(b.m) /\ Cols(a.m) = Cols(b.m)
Sum(a, b0, w) == LET b == Need(b0, 1, w) IN Bin(At(<<"+", " + ">>, w), a, b, MAdd(a.m, b.m), a.k, 0)
Dif(a, b0, w) == LET b == Need(b0, 1, w) IN Bin(At(<<"-", " - ">>, w), a, b, MAdd(a.m, MScale(b.m, QI(-1))), a.k, 0)
CanMul(a, b) == a.k = "s" \/ b.k = "s" \/ Cols(a.m) = Rows(b.m)
Prod(a, b) == IF a.k = "s" THEN MScale(b.m, Scalar(a)) ELSE IF b.k = "s" THEN MScale(a.m, Scalar(b)) ELSE MMul(a.m, b.m)
KindOf(a, b) == IF a.k = "s" /\ b.k = "s" THEN "s" ELSE "m"
Mul(a0, b0, w) == LET a == Need(a0, 1, w) b == Need(b0, 2, w + 1) IN Bin(At(<<"*", " \\cdot ", "\\times ">>, w), a, b, Prod(a, b), KindOf(a, b), 1)
Jux(a0, b0, w) == LET a1 == Need(a0, 2, w) b1 == Need(b0, 4, w + 1)
                      b == IF b1.first = "digit" THEN Wrap(b1, w) ELSE b1
                      a == IF a1.last = "letter" /\ b.first = "paren" THEN Wrap(a1, w) ELSE a1
                  IN Bin(IF a.last = "letter" /\ b.first = "letter" THEN " " ELSE At(<<"", " ">>, w), a, b, Prod(a, b), KindOf(a, b), 2)
CanDiv(b) == IF b.k = "s" THEN Scalar(b) # QZero ELSE Rows(b.m) = Cols(b.m) /\ Tame(b.m) /\ (Rows(b.m) = 3 => Bound(b.m, 4, 1)) /\ Rows(b.m) <= 3 /\ Det(b.m) # QZero
Inverse(b) == [b EXCEPT !.m = IF b.k = "s" THEN <<<<QInv(Scalar(b))>>>> ELSE Inv(b.m)]
Quo(a0, b0, w) == IF w % 4 < 2 THEN E(At(<<"\\frac{", "\\dfrac{">>, w) \o a0.t \o "}{" \o b0.t \o "}", KindOf(a0, b0), Prod(a0, Inverse(b0)), 6, "cmd", "cmd", a0.sy \/ b0.sy)
                  ELSE LET a == Need(a0, 1, w) b == Need(b0, 2, w + 1) IN Bin(At(<<"/", "\\div ">>, w), a, b, Prod(a, Inverse(b)), KindOf(a, b), 1)
Minus(a0, w) == LET a == Need(a0, 3, w) IN E("-" \o a.t, a.k, MScale(a.m, QI(-1)), 3, "minus", a.last, a.sy)
Script(n, w) == IF n >= 0 /\ w % 2 = 0 THEN "^" \o S(n) ELSE "^{" \o S(n) \o "}"
Power(a0, n, w) == LET a == Need(a0, 6, w) b == IF n < 0 THEN Inverse(a) ELSE a IN E(a.t \o Script(n, w), a.k, MPow(b.m, Abs(n)), 5, a.first, "cmd", a.sy)
CanPow(a, n) == a.l < 6 => TRUE
Transposed(a0, w) == LET a == Need(a0, 4, w) IN E(a.t \o At(<<"^T", "^{T}", "^\\top", "^{\\top}", "'", "^{\\mathrm{T}}">>, w), "m", T(a.m), 4, a.first, "cmd", a.sy)
Arg(a, w) == At(<<<<"(", ")">>, <<"\\left(", "\\right)">>, <<"( ", " )">>>>, w)
Call(name, a, m, k, w) == LET p == Arg(a, w) IN E(name \o p[1] \o a.t \o p[2], k, m, 6, "cmd", "paren", a.sy)
Op(n) == "\\operatorname{" \o n \o "}"
Call2(name, a, b, m, w) == LET p == Arg(a, w) IN E(Op(name) \o p[1] \o a.t \o At(<<",", ", ">>, w) \o b.t \o p[2], "m", m, 6, "cmd", "paren", a.sy \/ b.sy)
Const(t, m) == E(t, "m", m, 6, "cmd", "paren", FALSE)
Makers(w) == LET num(n) == At(<<S(n), S(n), S(n - 1) \o "+1">>, w) p == Arg(0, w) full(q, r, c) == LET F(i, j) == q IN Mat(r, c, F) IN
  UNION {{Const(Op("eye") \o p[1] \o num(n) \o p[2], Eye(n)), Const(Op("zeros") \o p[1] \o num(n) \o p[2], full(QZero, n, n)), Const(Op("ones") \o p[1] \o S(n) \o p[2], full(QOne, n, n))} : n \in 1..3}
  \cup UNION {{Const(Op("zeros") \o p[1] \o S(n) \o "," \o num(m) \o p[2], full(QZero, n, m)), Const(Op("ones") \o p[1] \o num(n) \o ", " \o S(m) \o p[2], full(QOne, n, m))} : n \in 1..2, m \in 1..3}
  \cup {Const(Op("diag") \o p[1] \o Join([i \in 1..n |-> At(Cells, w + i * 3).t], ",") \o p[2], LET F(i, j) == IF i = j THEN At(Cells, w + i * 3).q ELSE QZero IN Mat(n, n, F)) : n \in {x \in 1..3 : \A i \in 1..x : ~At(Cells, w + i * 3).sy}}

(* -------------------------- elementary operations ------------------------- *)
\* factors of a scaled row: as a scale, and after a bare row
Fac(t, q, sy) == [t |-> t, q |-> q, sy |-> sy]
Scales == <<Fac("2", QI(2), FALSE), Fac("-", QI(-1), FALSE), Fac("-3", QI(-3), FALSE), Fac("\\frac{1}{2}", Q(1, 2), FALSE), Fac("(1/2)", Q(1, 2), FALSE), Fac("+", QOne, FALSE), Fac("k", Q(5, 2), TRUE), Fac("(-\\frac{2}{3})", Q(-2, 3), FALSE), Fac("(x+1)", QI(4), TRUE), Fac("2x", QI(6), TRUE), Fac("-\\frac{3}{2} ", Q(-3, 2), FALSE)>>
Adds == <<Fac("+", QOne, FALSE), Fac("-", QI(-1), FALSE), Fac("+2", QI(2), FALSE), Fac("-3", QI(-3), FALSE), Fac("+\\frac{1}{2}", Q(1, 2), FALSE), Fac(" - \\frac{3}{2} ", Q(-3, 2), FALSE), Fac("+(-2)", QI(-2), FALSE), Fac("-(1+2)", QI(-3), FALSE), Fac("+k", Q(5, 2), TRUE), Fac("-x ", QI(-3), TRUE), Fac("+ 2k ", QI(5), TRUE), Fac("-2*3", QI(-6), FALSE), Fac("(3)", QI(3), FALSE)>>
Ref(rc, i, w) == rc \o At(<<"_" \o S(i), "_{" \o S(i) \o "}">>, w)
Flip(m, rc) == IF rc = "r" THEN m ELSE T(m)
Step(t, F(_), m, rc, sy) == [t |-> t, m |-> Flip(F(Flip(m, rc)), rc), sy |-> sy]
Steps(m, w) == UNION {LET n == IF rc = "r" THEN Rows(m) ELSE Cols(m) IN
    UNION {LET F(a) == Swap(a, p[1], p[2]) IN {Step(Ref(rc, p[1], w) \o x \o Ref(rc, p[2], w + 1), F, m, rc, FALSE) : x \in (IF Exhaustive THEN {"<->", "<=>", "\\leftrightarrow ", " \\Leftrightarrow "} ELSE {At(<<"<->", "<=>", "\\leftrightarrow ", " \\Leftrightarrow ">>, w)})} : p \in {q \in (1..n) \X (1..n) : q[1] # q[2]}}
    \cup UNION {LET f == IF Exhaustive THEN Scales[z] ELSE At(Scales, w + z) F(a) == RowScale(a, i, f.q) IN {Step(f.t \o Ref(rc, i, w), F, m, rc, f.sy)} : i \in 1..n, z \in 1..(IF Exhaustive THEN Len(Scales) ELSE 2)}
    \cup UNION {LET f == IF Exhaustive THEN Adds[z] ELSE At(Adds, w + z) F(a) == RowAdd(a, p[1], p[2], f.q) IN {Step(Ref(rc, p[1], w) \o f.t \o Ref(rc, p[2], w), F, m, rc, f.sy)} : p \in {q \in (1..n) \X (1..n) : q[1] # q[2]}, z \in 1..(IF Exhaustive THEN Len(Adds) ELSE 2)}
  : rc \in {"r", "c"}}
\* a literal being followed by steps: upper and lower lists are texts, m is the matrix so far
Arrow(e) == e.t \o At(<<"\\xrightarrow", "\\xRightarrow">>, Len(e.up)) \o (IF e.low = "" THEN "" ELSE "[" \o e.low \o "]") \o "{" \o e.up \o "}"

(* -------------------------------- behaviour ------------------------------- *)
Init == st = [phase |-> "build", s |-> <<>>, ops |-> 0, lv |-> 0, w |-> 0, ar |-> 0]
L == Len(st.s)
Cellz(z, i, j, sy) == At(IF sy THEN Cells ELSE SubSeq(Cells, 1, Plain), (z * (i * 7 + j * 13 + 1)) \div 7 + i * 31 + j * 17 + z)
Shape(z) == At(<<<<2, 2>>, <<2, 2>>, <<3, 3>>, <<2, 2>>, <<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<2, 2>>, <<1, 3>>, <<3, 3>>, <<1, 1>>>>, z)
RandomCells(z) == [i \in 1..Shape(z)[1] |-> [j \in 1..Shape(z)[2] |-> Cellz(z \div 13, i, j, z % 3 = 0)]]
Square(c) == Len(c) = Len(c[1])
Base1 == {Literal(Named[n], Len(n) + st.ops) : n \in Leafs}
LeavesNow(z) == IF Exhaustive THEN Base1 \cup Scalars \cup (IF MaxLeaves > 1 THEN {} ELSE Makers(0) \cup {DetLiteral(Named[n], 0) : n \in {x \in Leafs : Square(Named[x])}})
                ELSE LET c == RandomCells(z \div 4) IN IF z % 7 < 4 THEN {Literal(c, z \div 11)} ELSE IF z % 7 = 4 THEN Scalars ELSE IF z % 7 = 5 THEN Makers(z \div 7) ELSE IF Square(c) /\ Tame(Value(c)) THEN {DetLiteral(c, z)} ELSE {Literal(c, z)}
Push == st.phase = "build" /\ L < 3 /\ st.lv < MaxLeaves /\ st.ops + L <= MaxOps /\ st.ar = 0
        /\ \E z \in (IF Exhaustive THEN {0} ELSE {RandomElement(0..99999)}) : \E e \in (IF Exhaustive THEN LeavesNow(0) ELSE {RandomElement(LeavesNow(z))}) : st' = [st EXCEPT !.s = Append(@, e), !.lv = @ + 1]
Style == ~Exhaustive /\ st.phase = "build" /\ L > 0 /\ st.ar = 0 /\ st.w = 0 /\ \E w \in Pick(1000) : st' = [st EXCEPT !.w = w + 1]
W == IF Exhaustive THEN (IF Mode = "one" THEN Len(st.s[L].t) + L ELSE st.ar) ELSE st.w
Ready == st.ar = 0 /\ Mode # "steps" /\ st.phase = "build" /\ L > 0 /\ (Exhaustive \/ st.w > 0)
Top(e) == SubSeq(st.s, 1, L - 1) \o <<e>>
Good(e) == Fits(e.m) /\ Len(e.t) < 260
IsSq(e) == e.k = "m" /\ Rows(e.m) = Cols(e.m)
Num(e) == e.k = "m" /\ ~e.sy /\ Tame(e.m)
Unaries(e, w) == {Minus(e, w)} \cup (IF e.k = "m" THEN {Transposed(e, w + i) : i \in (IF Exhaustive THEN 0..5 ELSE {0})} ELSE {})
  \cup (IF IsSq(e) THEN {Call(Op("tr"), e, <<<<Trace(e.m, Rows(e.m))>>>>, "s", w), Call(Op("trace"), e, <<<<Trace(e.m, Rows(e.m))>>>>, "s", w)} ELSE {})
  \cup (IF IsSq(e) /\ Tame(e.m) THEN {Call("\\det", e, <<<<Det(e.m)>>>>, "s", w)} ELSE {})
  \cup (IF Num(e) THEN {Call(Op("rank"), e, <<<<QI(Rank(e.m))>>>>, "s", w), Call(Op("rref"), e, Rref(e.m), "m", w)} ELSE {})
  \cup (IF IsSq(e) /\ Bound(e.m, 12, 4) THEN {Power(e, n, w) : n \in (IF Exhaustive THEN {0, 1, 2, 3} ELSE {At(<<2, 2, 3, 0, 1>>, w)})} ELSE {})
  \cup (IF IsSq(e) /\ ~e.sy /\ CanDiv(e) /\ Bound(e.m, 12, 4) THEN {Power(e, n, w) : n \in (IF Exhaustive \/ w % 3 = 0 THEN {-1, -2} ELSE {-1})} ELSE {})
  \cup (IF e.k = "s" THEN {Power(e, 2, w)} ELSE {})
Ok(e) == e.k = "s" => Abs(Scalar(e)[1]) <= 40 /\ Scalar(e)[2] <= 6
Binaries(a, b, w) == (IF SameShape(a, b) THEN {Sum(a, b, w), Dif(a, b, w)} ELSE {})
  \cup (IF CanMul(a, b) /\ Bound(a.m, 40, 6) /\ Bound(b.m, 40, 6) THEN {Mul(a, b, w), Jux(a, b, w)} ELSE {})
  \cup (IF CanDiv(b) /\ CanMul(a, b) /\ (b.k = "m" => ~b.sy) /\ ~(b.k = "s" /\ b.sy) /\ Bound(a.m, 40, 6) /\ Bound(b.m, 12, 6) THEN {Quo(a, b, w), Quo(a, b, w + 1), Quo(a, b, w + 2)} ELSE {})
  \cup (IF a.k = "m" /\ b.k = "m" /\ Rows(a.m) = Rows(b.m) THEN {Call2("hstack", a, b, HStack(a.m, b.m), w)} ELSE {})
  \cup (IF a.k = "m" /\ b.k = "m" /\ Cols(a.m) = Cols(b.m) THEN {Call2("vstack", a, b, VStack(a.m, b.m), w)} ELSE {})
  \cup (IF (IsSq(a) \/ a.k = "s") /\ (IsSq(b) \/ b.k = "s") /\ Rows(a.m) + Rows(b.m) <= 4 THEN {Call2("diag", a, b, Diag(a.m, b.m), w)} ELSE {})
Unary == Ready /\ (IF Exhaustive THEN st.ops = 0 /\ L = 1 ELSE st.ops < MaxOps + 1) /\ \E e \in (IF Exhaustive THEN Unaries(st.s[L], W) ELSE {RandomElement(Unaries(st.s[L], W))}) : Good(e) /\ st' = [st EXCEPT !.s = Top(e), !.ops = @ + 1, !.w = 0]
BinSet == Binaries(st.s[L - 1], st.s[L], W)
Binary == Ready /\ L >= 2 /\ BinSet # {} /\ \E e \in (IF Exhaustive THEN BinSet ELSE {RandomElement(BinSet)}) : Good(e) /\ st' = [st EXCEPT !.s = SubSeq(@, 1, L - 2) \o <<e>>, !.ops = @ + 1, !.w = 0]
\* two operands that cannot be combined: the upper one is dropped
Drop == Ready /\ ~Exhaustive /\ L >= 2 /\ BinSet = {} /\ st' = [st EXCEPT !.s = SubSeq(@, 1, L - 1), !.w = 0]
\* the upper list is done first, then the lower one; a matrix in brackets (kind 4) takes no list
Start == st.phase = "build" /\ L = 0 /\ st.lv < MaxLeaves /\ Mode # "one"
         /\ \E z \in (IF Exhaustive THEN {0} ELSE {RandomElement(0..99999)}) : \E e \in (IF Exhaustive THEN Base1 ELSE {Literal(RandomCells(z), IF z % 8 = 4 THEN 0 ELSE z)}) :
              st' = [st EXCEPT !.s = <<[t |-> e.t, k |-> "a", m |-> e.m, sy |-> e.sy, up |-> "", low |-> ""]>>, !.ar = 1, !.lv = @ + 1, !.w = z]
StepTo(s, low, w) == [st EXCEPT !.s = <<[@[1] EXCEPT !.m = s.m, !.sy = @ \/ s.sy, !.up = IF low THEN @ ELSE IF @ = "" THEN s.t ELSE @ \o At(<<",", ", ">>, w) \o s.t, !.low = IF ~low THEN @ ELSE IF @ = "" THEN s.t ELSE @ \o "," \o s.t]>>, !.ar = IF low THEN 5 ELSE @ + 1, !.w = w]
MoreSteps == st.ar > 0 /\ L = 1 /\ st.phase = "build" /\ st.ar <= (IF Exhaustive THEN MaxOps ELSE 5)
             /\ \E w \in Pick(IF Exhaustive THEN 1 ELSE 10000) : \E s \in (IF Exhaustive THEN Steps(st.s[1].m, W) ELSE {RandomElement(Steps(st.s[1].m, w))}) : \E low \in (IF st.s[1].up = "" THEN {FALSE} ELSE IF st.ar >= 5 THEN {TRUE} ELSE BOOLEAN) :
                Bound(s.m, 200, 12) /\ (Exhaustive => (st.ar > 1 => s.t \in {"r_1<->r_2", "2c_1", "c_{1}+2c_{2}", "c_1+2c_1", "r_1<->r_{2}", "2c_{1}"})) /\ st' = StepTo(s, low, w)
ArrowDone == st.ar > 0 /\ L = 1 /\ st.phase = "build" /\ st.s[1].up # "" /\ (IF Exhaustive THEN TRUE ELSE st.w % 3 = 0 \/ st.ar >= 5)
             /\ LET a == st.s[1] e == E(Arrow(a), "m", a.m, 6, "cmd", "cmd", a.sy) IN st' = [st EXCEPT !.s = <<e>>, !.ar = 0, !.w = 0, !.phase = IF Exhaustive THEN "done" ELSE "build"]
Done == st.phase = "build" /\ L = 1 /\ st.ar = 0 /\ Mode # "steps" /\ st' = [st EXCEPT !.phase = "done"]
ListDone == Ready /\ L = 1 /\ st.ar = 0 /\ st.s[1].k = "m" /\ \E n \in {"rows", "cols"} : st' = [st EXCEPT !.phase = n, !.s = <<Call(Op(n), @[1], @[1].m, "m", W)>>]
NormDone == Ready /\ L = 1 /\ st.ar = 0 /\ st.s[1].k = "m" /\ Bound(st.s[1].m, 30, 4) /\ ~st.s[1].sy /\ \E n \in {"norm", "bars"} :
            st' = [st EXCEPT !.phase = "norm", !.s = <<IF n = "norm" THEN Call(Op("norm"), @[1], @[1].m, "m", W) ELSE E("\\|" \o @[1].t \o "\\|", "m", @[1].m, 6, "cmd", "cmd", FALSE)>>]
Next == Push \/ Style \/ Unary \/ Binary \/ Drop \/ Start \/ MoreSteps \/ ArrowDone \/ Done \/ ListDone \/ NormDone

(* ------------------------------- properties ------------------------------- *)
Mats == {st.s[i].m : i \in {j \in 1..L : st.s[j].k = "m" /\ Tame(st.s[j].m)}}
Involutive == \A m \in Mats : T(T(m)) = m
SameDet == \A m \in Mats : Rows(m) = Cols(m) => Det(T(m)) = Det(m) /\ (Det(m) # QZero => MMul(m, Inv(m)) = Eye(Rows(m)) /\ Rank(m) = Rows(m)) /\ (Det(m) = QZero => Rank(m) < Rows(m))
Reduced == \A m \in Mats : Rref(Rref(m)) = Rref(m) /\ Rank(m) = Rank(T(m))
Why == IF L = 0 THEN "" ELSE S(Rows(st.s[1].m)) \o S(Cols(st.s[1].m))
Emit == /\ (st.phase = "done" => LET e == st.s[1] IN Out([op |-> IF e.k = "s" THEN "scalar" ELSE "matrix", a |-> e.t, m |-> e.m, why |-> Why]))
        /\ (st.phase \in {"rows", "cols"} => LET e == st.s[1] IN Out([op |-> "list", a |-> e.t, m |-> IF st.phase = "rows" THEN e.m ELSE T(e.m), cols |-> st.phase = "cols", why |-> Why]))
        /\ (st.phase = "norm" => LET e == st.s[1] q == Norm2(e.m, Rows(e.m), Cols(e.m)) IN Out([op |-> "norm", a |-> e.t, m |-> <<<<q>>>>, why |-> Why]))
=============================================================================
