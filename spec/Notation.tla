------------------------------ MODULE Notation ------------------------------
(* C02.  A number and its writings.  The ground truth is some writing of one *)
(* number, the prediction some writing of the same or of another number; the *)
(* verdict depends on the two numbers only.                                  *)
EXTENDS Base
CONSTANTS Fracs,    \* <<a, b>>, a/b in lowest terms, b > 1
          Tens,     \* <<m, e>> : m * 10^e
          Shifts,   \* which writings are paired: the i-th with the (i + s)-th
          Contexts  \* compound answers around the number (both answers have the same one)

VARIABLES st

Frac(a, b) == [k |-> "frac", a |-> a, b |-> b]
Ten(m, e) == [k |-> "ten", a |-> m, b |-> e]

If(c, t) == IF c THEN <<t>> ELSE <<>>
Br(t) == "{" \o t \o "}"

RECURSIVE Group(_, _)
Group(t, sep) == IF Len(t) <= 3 THEN t ELSE Group(SubSeq(t, 1, Len(t) - 3), sep) \o sep \o SubSeq(t, Len(t) - 2, Len(t))

\* smallest w with b | 10^w, or 9 when the decimal does not terminate within 4 places
Places(b) == IF 10 % b = 0 THEN 1 ELSE IF 100 % b = 0 THEN 2 ELSE IF 1000 % b = 0 THEN 3 ELSE IF 10000 % b = 0 THEN 4 ELSE 9
NoZero(t) == IF SubSeq(t, 1, 2) = "0." THEN SubSeq(t, 2, Len(t)) ELSE t

FracTexts(a0, b) ==
    LET a == Abs(a0) neg == IF a0 < 0 THEN "-" ELSE ""
        A == S(a) B == S(b) w == Places(b)
        D == Fixed(a * (IPow(10, w) \div b), w)
        W == S(a \div b) R == S(a % b)
        F(cmd, x, y) == cmd \o Br(x) \o Br(y)
        short == a < 10 /\ b < 10
        mshort == (a % b) < 10 /\ b < 10
    IN << neg \o F("\\frac", A, B), neg \o A \o "/" \o B, neg \o F("\\dfrac", A, B), neg \o F("\\tfrac", A, B),
          neg \o S(2 * a) \o "/" \o S(2 * b), neg \o F("\\frac", S(3 * a), S(3 * b)), neg \o "\\frac " \o Br(A) \o " " \o Br(B) >>
       \o If(a0 < 0, F("\\frac", "-" \o A, B)) \o If(a0 < 0, F("\\frac", A, "-" \o B)) \o If(a0 < 0, "- " \o A \o "/" \o B)
       \o If(short, neg \o "\\frac" \o A \o B) \o If(a < 10, neg \o "\\frac" \o A \o Br(B)) \o If(b < 10, neg \o "\\frac" \o Br(A) \o B)
       \o If(short, neg \o "\\dfrac" \o A \o B) \o If(short, neg \o "\\frac " \o A \o " " \o B)
       \o If(w < 9, neg \o D) \o If(w < 9, neg \o NoZero(D)) \o If(w < 9, neg \o D \o "0") \o If(w < 9, neg \o "0" \o D)
       \o (IF a < b THEN <<>>
           ELSE << neg \o W \o F("\\frac", R, B), neg \o W \o " " \o R \o "/" \o B, neg \o W \o " " \o F("\\frac", R, B),
                   neg \o W \o F("\\dfrac", R, B), neg \o W \o F("\\tfrac", R, B), neg \o W \o "  " \o R \o "/" \o B >>
                \o If(mshort, neg \o W \o "\\frac" \o R \o B) \o If(mshort, neg \o W \o " \\frac" \o R \o B))

TenTexts(m0, e) ==
    LET m == Abs(m0) neg == IF m0 < 0 THEN "-" ELSE "" M == S(m)
        E == S(e) E1 == S(e + 1) D == M \o Rep("0", e) f == Fixed(m, 1)
        word(k, t) == IF e >= k THEN << neg \o M \o Rep("0", e - k) \o " " \o t, neg \o M \o Rep("0", e - k) \o t >>
                      ELSE IF e = k - 1 THEN << neg \o f \o " " \o t >> ELSE <<>>
        prod == << neg \o M \o "\\times10^" \o Br(E), neg \o M \o " \\times 10^" \o Br(E), neg \o M \o "\\cdot 10^" \o Br(E),
                   neg \o M \o "*10^" \o Br(E), neg \o f \o "\\times 10^" \o Br(E1), neg \o f \o " \\cdot 10^" \o Br(E1),
                   neg \o M \o "e" \o E, neg \o M \o "E" \o E, neg \o f \o "e" \o E1, neg \o f \o "E" \o E1,
                   neg \o Fixed(m * 10, 2) \o "e" \o E1 >>
    IN IF e >= 0
       THEN << neg \o D, neg \o D \o ".0", neg \o D \o ".00", neg \o "0" \o D, neg \o S(2 * m) \o Rep("0", e) \o "/2",
               neg \o "\\frac{" \o S(3 * m) \o Rep("0", e) \o "}{3}", neg \o M \o "e+" \o E, neg \o f \o "e+" \o Pad(e + 1, 2) >>
            \o If(Len(D) > 3, neg \o Group(D, ",")) \o If(Len(D) > 3, neg \o Group(D, "{,}")) \o If(Len(D) > 3, neg \o Group(D, "\\,"))
            \o If(Len(D) > 3, neg \o Group(D, ", ")) \o If(e < 10, neg \o M \o "*10^" \o E) \o If(e < 10, neg \o M \o "\\times10^" \o E)
            \o prod \o word(6, "million") \o word(9, "billion") \o word(12, "trillion")
       ELSE LET t == Fixed(m, -e) IN
            << neg \o t, neg \o NoZero(t), neg \o t \o "0", neg \o t \o "000", neg \o "0" \o t,
               neg \o M \o "/" \o "1" \o Rep("0", -e), neg \o "\\frac{" \o M \o "}{1" \o Rep("0", -e) \o "}",
               neg \o M \o "e-" \o Pad(-e, 2) >> \o prod

Texts(x) == IF x.k = "frac" THEN FracTexts(x.a, x.b) ELSE TenTexts(x.a, x.b)

(* numbers an error in reading would produce, all beyond the tolerance *)
Wrong(x) ==
    IF x.k = "frac"
    THEN LET a == x.a b == x.b w == Abs(a) \div b r == Abs(a) % b s == IF a < 0 THEN -1 ELSE 1
             cand == {<<a + s, b>>, <<a, b + 1>>, <<-a, b>>, <<b, a>>, <<a * 10, b>>, <<a, b * 10>>, <<s * w, 1>>, <<s * r, b>>}
                     \cup (IF w > 0 /\ r > 0 THEN {<<s * w * r, b>>, <<s * (w * 10 + r), b>>, <<s * (w * b - r), b>>} ELSE {})
             far(c) == LET d == QAbs(QSub(Q(a, b), c)) g == QAbs(Q(a, b)) IN
                       \* beyond the tolerance whichever of the two is the ground truth
                       ~QLe(d, Q(6, 1000)) \/ (QLt(g, QOne) /\ QLt(QAbs(c), QOne) /\ ~QLe(QMul(d, QI(400)), IF QLt(g, QAbs(c)) THEN QAbs(c) ELSE g))
         IN {c \in {Q(y[1], IF y[2] = 0 THEN 1 ELSE y[2]) : y \in {z \in cand : z[1] # 0}} : far(c) /\ c # Q(a, b)}
    ELSE {}
WrongNums(x) == IF x.k = "frac" THEN {IF c[2] = 1 THEN Ten(c[1], 0) ELSE Frac(c[1], c[2]) : c \in Wrong(x)}
                ELSE {Ten(x.a, x.b + 1), Ten(x.a, x.b - 1), Ten(-x.a, x.b), Ten(x.a * 2, x.b)}
                     \cup (IF x.b >= -2 \/ (x.b = -3 /\ Abs(x.a) < 1000) \/ (x.b = -4 /\ Abs(x.a) < 1000)
                           THEN {Ten(x.a + (IF x.a < 0 THEN -1 ELSE 1), x.b)} ELSE {})
                     \cup (IF x.b >= 3 THEN {Ten(x.a, x.b - 3)} ELSE {})

(* Around a number: <<before, after>>.  In an expression 2e-3 may also be 2e minus 3, so that computer e-notation   *)
(* is a writing of a number only where the number stands alone or as an element.                                   *)
Around == [bare |-> <<"", "">>, tuple |-> <<"(", ", x)">>, list |-> <<"[x,", "]">>, set |-> <<"\\{", ", x\\}">>, braces |-> <<"x, ", "">>,
           or |-> <<"x \\text{ or } ", "">>, and |-> <<"", " and x">>, column |-> <<"\\begin{pmatrix}", "\\\\x\\end{pmatrix}">>,
           row |-> <<"\\begin{bmatrix}x&", "\\end{bmatrix}">>, unit |-> <<"", "\\text{ cm}">>, dollars |-> <<"$", "$">>, nested |-> <<"((", ",x),y)">>,
           ray |-> <<"(-\\infty,", "]">>, rays |-> <<"(-\\infty,-10^{15}) \\cup (", ",\\infty)">>, value |-> <<"y=", "">>, apply |-> <<"f(x) = ", "">>, most |-> <<"x \\le ", "">>, differs |-> <<"x \\neq ", "">>]
Whole == {"bare", "tuple", "list", "set", "braces", "or", "and", "column", "row", "unit", "dollars", "nested", "ray", "rays"}
Computer(t) == \E i \in 2..Len(t) : SubSeq(t, i, i) \in {"e", "E"} /\ SubSeq(t, i - 1, i - 1) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "."}
In(c, t) == Around[c][1] \o t \o Around[c][2]

At(s, i) == s[((i - 1) % Len(s)) + 1]
Start(x) == [phase |-> "truth", x |-> x, y |-> x, i |-> 0, a |-> "", b |-> "", c |-> "bare"]
Init == \E p \in Fracs : st = Start(Frac(p[1], p[2]))
        \/ \E q \in Tens : st = Start(Ten(q[1], q[2]))
WriteTruth == /\ st.phase = "truth"
              /\ \E i \in 1..Len(Texts(st.x)), c \in Contexts : st' = [st EXCEPT !.phase = "prediction", !.i = i, !.a = Texts(st.x)[i], !.c = c]
WriteSame == /\ st.phase = "prediction"
             /\ \E s \in Shifts : st' = [st EXCEPT !.phase = "judged", !.b = At(Texts(st.x), st.i + s)]
WriteFirst == /\ st.phase = "prediction" /\ st' = [st EXCEPT !.phase = "judged", !.b = Texts(st.x)[1]]
WriteWrong == /\ st.phase = "prediction"
              /\ \E y \in WrongNums(st.x) :
                    LET W == WrongNums(st.x) IN
                    \* each wrong number in one writing, chosen by position so that all pairs of writings occur
                    st' = [st EXCEPT !.phase = "judged", !.y = y, !.b = At(Texts(y), st.i + Cardinality({z \in W : z.a < y.a}))]
Next == WriteTruth \/ WriteSame \/ WriteFirst \/ WriteWrong

Different == st.phase = "judged" /\ st.x # st.y => st.a # st.b
Enough == Len(Texts(st.x)) >= 7
\* the sides of an inequality are subtracted, so that its tolerance is that of expressions
Clear == (st.c \in Whole \/ ~(Computer(st.a) \/ Computer(st.b))) /\ (st.c = "most" => st.x.k = "frac" \/ st.x.b > -3)
Emit == st.phase = "judged" /\ Clear => Out([op |-> "eq", a |-> In(st.c, st.a), b |-> In(st.c, st.b), exp |-> st.x = st.y,
                                             why |-> IF st.c = "bare" THEN st.x.k ELSE st.x.k \o " " \o st.c])
=============================================================================
