-------------------------------- MODULE Base --------------------------------
(* Common vocabulary: sequences, text, exact rationals, decimal rendering,   *)
(* and emission of test vectors for the conformance driver.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
RangeOf(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

RECURSIVE FoldL(_, _, _)
FoldL(F(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldL(F, F(acc, Head(s)), Tail(s))

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE Rep(_, _)
Rep(t, n) == IF n <= 0 THEN "" ELSE t \o Rep(t, n - 1)

RECURSIVE SetToSeqB(_)
SetToSeqB(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqB(S \ {x})

RECURSIVE IPow(_, _)
IPow(b, n) == IF n <= 0 THEN 1 ELSE b * IPow(b, n - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(Abs(b), Abs(a) % Abs(b))

Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}

(* ---------------------------- exact rationals ---------------------------- *)
RSgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
\* TLA+ \div floors, so reduce on magnitudes
Q(n, d) == LET g == Gcd(n, d) IN
           IF n = 0 THEN <<0, 1>> ELSE <<RSgn(n) * RSgn(d) * (Abs(n) \div g), Abs(d) \div g>>
QI(n) == <<n, 1>>
QAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == Q(a[1] * b[1], a[2] * b[2])
QInv(a) == Q(a[2], a[1])
QDiv(a, b) == QMul(a, QInv(b))
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
QLe(a, b) == a[1] * b[2] <= b[1] * a[2]
QAbs(a) == <<Abs(a[1]), a[2]>>
QZero == <<0, 1>>
QOne == <<1, 1>>
QIsInt(a) == a[2] = 1
RECURSIVE QPowN(_, _)
QPowN(a, n) == IF n = 0 THEN QOne ELSE QMul(a, QPowN(a, n - 1))
QPow(a, n) == IF n >= 0 THEN QPowN(a, n) ELSE QInv(QPowN(a, -n))
QFloor(a) == a[1] \div a[2]                       \* TLA+ \div floors
QCeil(a) == -((-a[1]) \div a[2])
QMod(a, b) == QSub(a, QMul(b, QI(QFloor(QDiv(a, b)))))
Small(a) == Abs(a[1]) < 30000 /\ a[2] < 30000

(* ------------------------------ number text ------------------------------ *)
S(n) == ToString(n)
Pad(n, w) == LET t == ToString(n) IN Rep("0", w - Len(t)) \o t
Sign(n) == IF n < 0 THEN "-" ELSE ""
\* n / 10^w written with exactly w decimals
Fixed(n, w) == LET t == Pad(Abs(n), w + 1) IN
               Sign(n) \o SubSeq(t, 1, Len(t) - w) \o (IF w = 0 THEN "" ELSE "." \o SubSeq(t, Len(t) - w + 1, Len(t)))

(* -------------------------------- emission ------------------------------- *)
Out(rec) == PrintT("@@" \o ToJson(rec))
=============================================================================
