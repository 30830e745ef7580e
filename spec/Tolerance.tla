----------------------------- MODULE Tolerance -----------------------------
(* C01.  A comparison of two real numbers: the ground truth is written,      *)
(* the prediction is written some distance away from it, and the verdict is  *)
(* fixed by the distance and the class of the ground truth alone.            *)
EXTENDS Base
CONSTANTS Decimals,   \* <<n, w>> : n / 10^w
          Factors,    \* distance in hundredths of the threshold
          Fracs,      \* <<a, b>>
          Offsets,    \* distance in units of the last decimal of the prediction
          Roots,      \* <<n, d>> : sqrt(n) / d
          Pis,        \* <<a, b>> : a pi / b
          Prefixes    \* leading digits put before both numbers

VARIABLES st

(* ------------------------------- the rule -------------------------------- *)
\* |g - p| < threshold(g), numbers scaled to a common integer scale s (g = G/s, p = P/s);
\* the result is 1 (accepted), 0 (rejected) or 2 (exactly on the threshold: never generated)
Cmp(x, y) == IF x < y THEN 1 ELSE IF x > y THEN 0 ELSE 2
Rule(G, P, s) == LET d == Abs(G - P) IN
                 IF G = 0 THEN (IF d > 1000000 THEN 0 ELSE Cmp(d * 1000, s))
                 ELSE IF Abs(G) >= s THEN (IF d > 1000000 THEN 0 ELSE Cmp(d * 200, s))
                 ELSE (IF d >= Abs(G) \div 500 + 1 THEN 0 ELSE Cmp(d * 1000, Abs(G)))

Start == [phase |-> "truth", kind |-> "", a |-> "", b |-> "", exp |-> 2, cls |-> ""]
Put(k, a, b, e, c) == [phase |-> "judged", kind |-> k, a |-> a, b |-> b, exp |-> e, cls |-> c]
Class(G, s) == IF G = 0 THEN "zero" ELSE IF Abs(G) >= s THEN "large" ELSE "small"

Init == st = Start

(* decimals a chosen fraction of the threshold apart *)
DecimalNear == \E g \in Decimals, f \in Factors, up \in {-1, 1} :
    LET n == g[1] w == g[2] small == n # 0 /\ Abs(n) < IPow(10, w)
        W == IF small THEN w + 5 ELSE Max2(w, 5)
        unit == IF n = 0 THEN 1 ELSE IF small THEN Abs(n) ELSE 5 * IPow(10, W - 5)
        P == n * IPow(10, W - w) + up * unit * f
    IN st' = Put("decimal", Fixed(n, w), Fixed(P, W), IF f < 100 THEN 1 ELSE 0, Class(n, IPow(10, w)))

(* the same with the same leading digits before both (the integer part must be three digits) *)
DecimalLarge == \E x \in Prefixes, m \in {1, 250, 998}, w \in {0, 2}, f \in Factors, up \in {-1, 1}, neg \in BOOLEAN :
    LET n == m * IPow(10, w) + (IF w = 0 THEN 0 ELSE 37)
        P == n * IPow(10, 5 - w) + up * 5 * f
        T(N, v) == (IF neg THEN "-" ELSE "") \o x \o Pad(N \div IPow(10, v), 3) \o
                   (IF v = 0 THEN "" ELSE "." \o Pad(N % IPow(10, v), v))
    IN /\ P >= 0
       /\ st' = Put("large", T(n, w), T(P, 5), IF f < 100 THEN 1 ELSE 0, "large")

(* unrelated decimals *)
DecimalFar == \E g \in Decimals, p \in Decimals :
    LET S0 == 5 G == g[1] * IPow(10, S0 - g[2]) P == p[1] * IPow(10, S0 - p[2]) IN
    /\ g[2] <= S0 /\ p[2] <= S0 /\ Abs(g[1]) < 20000 /\ Abs(p[1]) < 20000
    /\ Abs(g[1]) * IPow(10, S0 - g[2]) < 1000000000 /\ Abs(p[1]) * IPow(10, S0 - p[2]) < 1000000000
    /\ st' = Put("far", Fixed(g[1], g[2]), Fixed(p[1], p[2]), Rule(G, P, IPow(10, S0)), Class(g[1], IPow(10, g[2])))

FracText(a, b, k) == Sign(a) \o (IF k = 0 THEN "\\frac{" \o S(Abs(a)) \o "}{" \o S(b) \o "}" ELSE S(Abs(a)) \o "/" \o S(b))
(* a fraction against a decimal with four places, in both roles *)
Fraction == \E g \in Fracs, o \in Offsets, k \in {0, 1}, swap \in BOOLEAN :
    LET a == g[1] b == g[2]
        P == (a * 10000) \div b + o
        G == a * 10000 Pb == P * b
    IN IF swap THEN st' = Put("fraction", Fixed(P, 4), FracText(a, b, k), Rule(Pb, G, 10000 * b), Class(P, 10000))
       ELSE st' = Put("fraction", FracText(a, b, k), Fixed(P, 4), Rule(G, Pb, 10000 * b), Class(a, b))

RECURSIVE ISqrt(_, _)     \* Newton from above
ISqrt(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrt(n, y)
(* sqrt(n)/d against P/1000 (d = 1) or P/10000 (value below one), in both roles *)
RootBig == \E r \in {x \in Roots : x[2] = 1}, o \in Offsets, neg \in BOOLEAN, swap \in BOOLEAN :
    LET n == r[1]
        P == ISqrt(n * 10000, 2000) * 10 + o             \* thousandths
        \* |sqrt(n) - P/1000| < 5/1000  iff  (P-5)^2 < n 10^6 < (P+5)^2
        acc == (P - 5) * (P - 5) < n * 1000000 /\ n * 1000000 < (P + 5) * (P + 5)
        rt == (IF neg THEN "-" ELSE "") \o "\\sqrt{" \o S(n) \o "}"
        dt == Fixed(IF neg THEN -P ELSE P, 3)
    IN /\ P > 1010 /\ (P - 5) * (P - 5) # n * 1000000 /\ (P + 5) * (P + 5) # n * 1000000
       /\ st' = IF swap THEN Put("root", dt, rt, IF acc THEN 1 ELSE 0, "large")
                ELSE Put("root", rt, dt, IF acc THEN 1 ELSE 0, "large")
RootSmall == \E r \in {x \in Roots : x[2] > 1}, o \in Offsets, neg \in BOOLEAN :
    LET n == r[1] d == r[2]
        P == (ISqrt(n * 1000000, 8000) * 10) \div d + o   \* ten-thousandths
        \* g = sqrt(n)/d < 1 : 999 g < 1000 p < 1001 g ; squared and scaled by (d/10)^2
        lhs == (P * d) * (P * d)
        acc == 998001 * n < (lhs \div 100) /\ (lhs \div 100) < 1002001 * n
        near == Abs(998001 * n - lhs \div 100) < 60 \/ Abs(1002001 * n - lhs \div 100) < 60
        rt == (IF neg THEN "-" ELSE "") \o "\\frac{\\sqrt{" \o S(n) \o "}}{" \o S(d) \o "}"
    IN /\ P > 0 /\ ~near /\ Abs(lhs) < 2000000000
       /\ st' = Put("root", rt, Fixed(IF neg THEN -P ELSE P, 4), IF acc THEN 1 ELSE 0, "small")

(* a pi / b against P/1000 with pi between 355/113 - 3/10^7 and 355/113; values above one *)
PiCase == \E r \in Pis, o \in Offsets, neg \in BOOLEAN, swap \in BOOLEAN, k \in {0, 1} :
    LET a == r[1] b == r[2]
        P == (a * 355 * 1000) \div (b * 113) + o
        d == Abs(a * 355000 - P * b * 113)             \* times 1/(113000 b)
        t == 565 * b                                   \* 5/1000 in the same units
        body == IF b = 1 THEN (IF a = 1 THEN "" ELSE S(a)) \o "\\pi"
                ELSE IF k = 0 THEN "\\frac{" \o (IF a = 1 THEN "" ELSE S(a)) \o "\\pi}{" \o S(b) \o "}"
                ELSE "\\frac{" \o S(a) \o "}{" \o S(b) \o "}\\pi"
        rt == (IF neg THEN "-" ELSE "") \o body
        dt == Fixed(IF neg THEN -P ELSE P, 3)
    IN /\ P > 1006 /\ Abs(d - t) > a + b
       /\ st' = IF swap THEN Put("pi", dt, rt, IF d < t THEN 1 ELSE 0, "large")
                ELSE Put("pi", rt, dt, IF d < t THEN 1 ELSE 0, "large")

Next == st.phase = "truth" /\ (DecimalNear \/ DecimalLarge \/ DecimalFar \/ Fraction \/ RootBig \/ RootSmall \/ PiCase)

(* ------------------------------- properties ------------------------------ *)
\* equal numbers are always accepted, the sign matters, and the rule is the stated one
SameAccepted == (st.phase = "judged" /\ st.a = st.b) => st.exp = 1
RuleTable ==/\ Rule(100000, 100499, 100000) = 1 /\ Rule(100000, 100501, 100000) = 0
             /\ Rule(99900, 99999, 100000) = 1 /\ Rule(99900, 100000, 100000) = 0
             /\ Rule(0, 99, 100000) = 1 /\ Rule(0, 101, 100000) = 0 /\ Rule(-100000, -100499, 100000) = 1

ASSUME RuleTable

Emit == (st.phase = "judged" /\ st.exp # 2) =>
        Out([op |-> "eq", a |-> st.a, b |-> st.b, exp |-> st.exp = 1, why |-> st.kind \o "/" \o st.cls])
=============================================================================
