------------------------------ MODULE Readings ------------------------------
(* C04.  Answers that can be read in two ways, and when two answers match:   *)
(* some reading of the one is, within the tolerance, some reading of the     *)
(* other.  An answer is written first, then another; both orders are judged. *)
EXTENDS Base
CONSTANTS Percents,    \* <<n, w>> : n/10^w percent
          Degrees,     \* <<n, w>>
          Numerals,    \* <<digits, base>>, digits a sequence
          Hours, Minutes, Seconds, Small4
VARIABLES st

Num(q) == [k |-> "num", q |-> q, s |-> <<>>]
Tup(s) == [k |-> "tup", q |-> QZero, s |-> s]
PiOf(q) == Num(QMul(q, <<355, 113>>))

(* --------------------------- when readings match -------------------------- *)
Dist(g, p) == Abs(g[1] * p[2] - p[1] * g[2])
AcceptQ(g, p) == LET d == Dist(g, p) IN
    IF d > 2000000 THEN FALSE
    ELSE IF g[1] = 0 THEN d * 1000 < g[2] * p[2]
    ELSE IF Abs(g[1]) >= g[2] THEN d * 200 < g[2] * p[2]
    ELSE d * 1000 < Abs(g[1]) * p[2]
\* too close to the edge to be decided with this approximation of pi and floating point
EdgeQ(g, p) == LET d == Dist(g, p) t == IF g[1] = 0 THEN (g[2] * p[2]) \div 1000
                                     ELSE IF Abs(g[1]) >= g[2] THEN (g[2] * p[2]) \div 200 ELSE (Abs(g[1]) * p[2]) \div 1000
               IN Abs(d - t) <= t \div 20 + 1 /\ d # 0
Accept(x, y) == x.k = y.k /\ IF x.k = "num" THEN AcceptQ(x.q, y.q) ELSE x.s = y.s
Edge(x, y) == x.k = "num" /\ y.k = "num" /\ EdgeQ(x.q, y.q)
Matches(a, b) == \E x \in a.r, y \in b.r : Accept(x, y)
Decided(a, b) == \A x \in a.r, y \in b.r : ~Edge(x, y) /\ ~Edge(y, x)

(* -------------------------------- writings -------------------------------- *)
Ans(k, t, r) == [k |-> k, t |-> t, r |-> r]
Dec(p) == Fixed(p[1], p[2])
QDec(p) == Q(p[1], IPow(10, p[2]))
Trim(p) == IF p[2] > 0 /\ p[1] % 10 = 0 THEN <<p[1] \div 10, p[2] - 1>> ELSE p

PercentOf(p) == {Ans("percent", f[1] \o Dec(p) \o f[2], {Num(QDec(p)), Num(QDiv(QDec(p), QI(100)))}) :
                f \in {<<"", "%">>, <<"", "\\%">>, <<"", " \\%">>, <<"$", "\\%$">>, <<"", IF p[2] > 0 THEN "0\\%" ELSE ".0%">>}}
PercentAns == UNION {PercentOf(p) : p \in Percents}
DegreeAns == {Ans("degree", Dec(d) \o c, {Num(QDec(d)), PiOf(QDiv(QDec(d), QI(180)))}) :
                d \in Degrees, c \in {"^\\circ", "^{\\circ}", " ^\\circ", "^{ \\circ }", "^ \\circ"}}
RECURSIVE Value(_, _)
Value(ds, b) == IF ds = <<>> THEN 0 ELSE Value(SubSeq(ds, 1, Len(ds) - 1), b) * b + Last(ds)
Digits(ds) == Cat([i \in 1..Len(ds) |-> S(ds[i])])
\* written per numeral, because the form depends on the base
BaseOf(n) == LET r == {Num(QI(Value(n[1], n[2]))), Num(QI(Value(n[1], 10)))} IN
             {Ans("base", Digits(n[1]) \o "_{" \o S(n[2]) \o "}", r)}
             \cup (IF n[2] < 10 THEN {Ans("base", Digits(n[1]) \o "_" \o S(n[2]), r)} ELSE {})

TimeReading(h, m, s) == IF s # 0 THEN Tup(<<h, m, s>>) ELSE IF m # 0 THEN Tup(<<h, m>>) ELSE Num(QI(h))
Clock(h, m, s, style) == (IF style = "pad" THEN Pad(h, 2) ELSE S(h)) \o ":" \o Pad(m, 2) \o (IF s < 0 THEN "" ELSE ":" \o Pad(s, 2))
PmWords == {"pm", " pm", " PM", " p.m.", "\\text{ pm}", " \\text{p.m.}", "\\text{PM}"}
AmWords == {"am", " am", " AM", " a.m.", "\\text{ am}", " \\text{a.m.}"}
PmHour(h) == IF h = 12 THEN 12 ELSE h + 12
TimeOf(h, m, s, style) ==
    {Ans("pm", Clock(h, m, s, style) \o w, {TimeReading(h, m, Max2(s, 0)), TimeReading(PmHour(h), m, Max2(s, 0))}) : w \in PmWords}
    \cup {Ans("am", Clock(h, m, s, style) \o w, {TimeReading(h, m, Max2(s, 0))}) : w \in AmWords}
    \cup {Ans("clock", Clock(h, m, s, style), {TimeReading(h, m, Max2(s, 0))})}
    \cup (IF m = 0 /\ s < 0 /\ style = ""
          THEN {Ans("pm", S(h) \o w, {Num(QI(h)), Num(QI(PmHour(h)))}) : w \in PmWords}
               \cup {Ans("am", S(h) \o w, {Num(QI(h))}) : w \in AmWords}
          ELSE {})
Times == UNION {TimeOf(h, m, s, style) : h \in Hours, m \in Minutes, s \in Seconds, style \in {"", "pad"}}

PlainText(q) == IF q[2] = 1 THEN S(q[1])
                ELSE IF 10000 % q[2] = 0 THEN LET p == Trim(Trim(Trim(<<q[1] * (10000 \div q[2]), 4>>))) IN Fixed(p[1], p[2])
                ELSE Sign(q[1]) \o "\\frac{" \o S(Abs(q[1])) \o "}{" \o S(q[2]) \o "}"
Plain(q) == Ans("plain", PlainText(q), {Num(q)})
PiText(q) == Sign(q[1]) \o (IF q[2] = 1 THEN (IF Abs(q[1]) = 1 THEN "" ELSE S(Abs(q[1]))) \o "\\pi"
                            ELSE "\\frac{" \o (IF Abs(q[1]) = 1 THEN "" ELSE S(Abs(q[1]))) \o "\\pi}{" \o S(q[2]) \o "}")
PlainPi(q) == Ans("plain", PiText(q), {PiOf(q)})
ClockPlain(h, m, s) == Ans("clock", Clock(h, m, s, ""), {TimeReading(h, m, Max2(s, 0))})

(* answers to compare an answer with: its readings, and what a misreading would give *)
Around(a) ==
    CASE a.k = "percent" -> LET q == CHOOSE x \in {r.q : r \in a.r} : \A y \in {r.q : r \in a.r} : QLe(QAbs(y), QAbs(x)) IN
             {Plain(x) : x \in {q, QDiv(q, QI(100)), QMul(q, QI(100)), QDiv(q, QI(10)), QDiv(q, QI(1000)), QAdd(q, QOne), QNeg(q), QDiv(QAdd(q, QOne), QI(100)), QSub(QOne, QDiv(q, QI(100)))}}
      [] a.k = "degree" -> LET q == CHOOSE x \in {r.q : r \in a.r} : \A y \in {r.q : r \in a.r} : QLe(QAbs(y), QAbs(x)) IN
             {Plain(x) : x \in {q, QNeg(q), QAdd(q, QOne), QDiv(q, QI(180)), QDiv(q, QI(60)), QMul(q, QI(2)), QDiv(q, QI(100))}}
             \cup {PlainPi(x) : x \in {QDiv(q, QI(180)), QNeg(QDiv(q, QI(180))), QDiv(q, QI(90)), QDiv(q, QI(360)), QDiv(QAdd(q, QOne), QI(180)), q}}
      [] a.k = "base" -> LET vs == {r.q[1] : r \in a.r} IN {Plain(QI(v + d)) : v \in vs, d \in {0, 1, -1}} \cup {Plain(QI(2 * v)) : v \in vs}
      [] OTHER -> {ClockPlain(h, m, s) : h \in UNION {{x, x + 12, ((x + 1) % 24)} : x \in Hours}, m \in Minutes, s \in Seconds}
                  \cup {Plain(QI(h)) : h \in UNION {{x, x + 12, x + 24, 0} : x \in Hours}}

Init == st = [phase |-> "first", a |-> Plain(QOne), b |-> Plain(QOne)]
First == /\ st.phase = "first"
         /\ \/ \E a \in PercentAns \cup DegreeAns : st' = [st EXCEPT !.phase = "second", !.a = a]
            \/ \E n \in Numerals : \E a \in BaseOf(n) : st' = [st EXCEPT !.phase = "second", !.a = a]
            \/ \E a \in Times : st' = [st EXCEPT !.phase = "second", !.a = a]
Second == /\ st.phase = "second"
          /\ \/ \E b \in Around(st.a) : st' = [st EXCEPT !.phase = "judged", !.b = b]
             \/ st.a.k = "percent" /\ \E b \in PercentAns : (Small4 \/ b.r # st.a.r) /\ st' = [st EXCEPT !.phase = "judged", !.b = b]
             \/ st.a.k = "degree" /\ \E b \in DegreeAns : st' = [st EXCEPT !.phase = "judged", !.b = b]
             \/ st.a.k = "base" /\ \E n \in Numerals : \E b \in BaseOf(n) : st' = [st EXCEPT !.phase = "judged", !.b = b]
             \/ st.a.k \in {"am", "pm"} /\ \E b \in Times : b.k # "clock" /\ (Small4 \/ Len(b.t) = Len(st.a.t)) /\ st' = [st EXCEPT !.phase = "judged", !.b = b]
Next == First \/ Second

(* ------------------------------- properties ------------------------------- *)
AtMostTwo == Cardinality(st.a.r) \in {1, 2}
Reflexive == Matches(st.a, st.a)
Noon == Cardinality({a.r : a \in {x \in TimeOf(12, 30, -1, "") : x.k = "pm"}}) = 1 /\ \A x \in TimeOf(12, 30, -1, "") : Cardinality(x.r) = 1
ASSUME Noon
Emit == (st.phase = "judged" /\ Decided(st.a, st.b)) =>
        /\ Out([op |-> "eq", a |-> st.a.t, b |-> st.b.t, exp |-> Matches(st.a, st.b), why |-> st.a.k \o "~" \o st.b.k])
        /\ Out([op |-> "eq", a |-> st.b.t, b |-> st.a.t, exp |-> Matches(st.b, st.a), why |-> st.b.k \o "~" \o st.a.k])
=============================================================================
