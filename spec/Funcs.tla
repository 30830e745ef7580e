-------------------------------- MODULE Funcs --------------------------------
(* C18.  Named functions.  Expressions are built as in Arith; every function  *)
(* other than floor and ceiling is interpreted as some fixed arbitrary        *)
(* function of the rationals (H), which the driver uses as well: the value    *)
(* then shows which function is applied to what.                              *)
EXTENDS Base
CONSTANTS LeafTexts, MaxOps, MaxUnary, MaxApps, MaxLeaves, Exhaustive
VARIABLES st

Pick(n) == IF Exhaustive THEN 0..(n - 1) ELSE {RandomElement(0..(n - 1))}
At(s, i) == s[(i % Len(s)) + 1]
H(f, a) == LET n == ((f * 31 + a[1] * 17 + a[2] * 7) % 97) - 48 IN Q(IF n = 0 THEN 49 ELSE n, 3)
ExpV(a) == IF a = QZero THEN QOne ELSE H(19, a)
LogV(a) == IF a = ExpV(QOne) THEN QOne ELSE H(21, a)
PowV(a, b) == IF QIsInt(b) THEN QPow(a, b[1]) ELSE H(22, QAdd(QMul(a, QI(3)), b))

(* open: ends in an unparenthesised argument, which swallows a following factor; fn: a function occurs at the top level after the first factor *)
E(t, v, l, f, z, o, fn, lg) == [t |-> t, v |-> v, l |-> l, first |-> f, last |-> z, open |-> o, fn |-> fn, lg |-> lg]
Atom(t, v, f, z) == E(t, v, 5, f, z, FALSE, FALSE, FALSE)
AllLeaves == {Atom("2", QI(2), "digit", "digit"), Atom("3", QI(3), "digit", "digit"), Atom("10", QI(10), "digit", "digit"), Atom("0.5", Q(1, 2), "digit", "digit"), Atom("x", QI(3), "letter", "letter"), Atom("y", QI(-2), "letter", "letter"),
              Atom("a", Q(1, 2), "letter", "letter"), Atom("\\alpha ", Q(5, 3), "letter", "letter"), Atom("\\frac{2}{3}", Q(2, 3), "cmd", "cmd"), Atom("\\frac12", Q(1, 2), "cmd", "digit"), Atom("x_{1}", QI(4), "letter", "letter"),
              Atom("e", ExpV(QOne), "func", "cmd"), Atom("x^{2}", QI(9), "letter", "cmd")}
Leaves == {l \in AllLeaves : LeafTexts = {} \/ l.t \in LeafTexts}

Paren(e, w) == LET p == At(<<<<"(", ")">>, <<"\\left(", "\\right)">>, <<"( ", " )">>, <<"\\mleft(", "\\mright)">>>>, w) IN E(p[1] \o e.t \o p[2], e.v, 5, "paren", "cmd", FALSE, FALSE, e.lg)
Group(e, w) == IF (w % 3) = 0 THEN Paren(e, w \div 3)
               ELSE LET p == At(<<<<"[", "]">>, <<"\\{", "\\}">>, <<"{", "}">>, <<"\\left[", "\\right]">>, <<"\\lbrace ", "\\rbrace ">>>>, w) IN E(p[1] \o e.t \o p[2], e.v, 5, IF p[1] = "[" THEN "paren2" ELSE "cmd", "cmd", FALSE, FALSE, e.lg)
Need(e, l, w) == IF e.l < l THEN Group(e, w) ELSE e
Closed(e, w) == IF e.open THEN Group(e, w) ELSE e

Bin(op, a, b, v, l) == E(a.t \o op \o b.t, v, l, a.first, b.last, b.open, a.fn \/ b.fn \/ b.first = "func", a.lg \/ b.lg)
Sum(x, y, w) == LET a == Need(x, 0, w) b == Need(y, 1, w + 1) IN Bin("+", a, b, QAdd(a.v, b.v), 0)
Dif(x, y, w) == LET a == Need(x, 0, w) b == Need(y, 1, w + 1) IN Bin(" - ", a, b, QSub(a.v, b.v), 0)
Mul(x, y, w) == LET a == Closed(Need(x, 1, w), w) b == Need(y, 2, w + 1) IN Bin(At(<<"*", " \\cdot ", " \\times ">>, w), a, b, QMul(a.v, b.v), 1)
Div(x, y, w) == LET a == Closed(Need(x, 1, w), w) b == Need(y, 2, w + 1) IN Bin(At(<<"/", " \\div ", ":">>, w), a, b, QDiv(a.v, b.v), 1)
\* next to one another: an open left factor needs a function on the right
Jux(x, y, w) ==
  LET a0 == IF x.l >= 3 \/ (x.l = 2 /\ x.first # "minus") THEN x ELSE Group(x, w)
      b0 == IF y.l >= 3 \/ (y.l = 2 /\ y.first # "minus") THEN y ELSE Group(y, w + 1)
      b1 == IF b0.first = "digit" THEN Group(b0, w + 2) ELSE b0
      a1 == IF a0.open /\ b1.first # "func" THEN Group(a0, w) ELSE a0
      a2 == IF a1.last = "letter" /\ b1.first \in {"paren", "paren2"} THEN Group(a1, w + 3) ELSE a1
  IN Bin(At(<<"", " ">>, w), a2, b1, QMul(a2.v, b1.v), 2)
Neg(x, w) == LET a == Need(x, 2, w) IN E("-" \o a.t, QNeg(a.v), 2, "minus", a.last, a.open, a.fn, a.lg)
PowE(x, y, w) == LET a == IF x.l = 5 THEN Closed(x, w) ELSE Group(x, w) IN
   E(a.t \o "^" \o (IF y.l = 5 /\ y.first = "digit" /\ Len(y.t) = 1 THEN y.t ELSE "{" \o y.t \o "}"), QPow(a.v, y.v[1]), 4, a.first, "cmd", FALSE, FALSE, a.lg)
Frac(x, y, w) == E("\\frac{" \o x.t \o "}{" \o y.t \o "}", QDiv(x.v, y.v), 5, "cmd", "cmd", FALSE, FALSE, x.lg \/ y.lg)
AbsE(x, w) == E(At(<<"\\left|", "\\lvert ">>, w) \o x.t \o At(<<"\\right|", "\\rvert ">>, w), QAbs(x.v), 5, "cmd", "cmd", FALSE, FALSE, x.lg)

(* -------------------------------- functions ------------------------------- *)
F(n, id, forms) == [n |-> n, id |-> id, forms |-> forms]
Op(n) == "\\operatorname{" \o n \o "}"
Trig == <<F("sin", 1, <<"\\sin">>), F("cos", 2, <<"\\cos">>), F("tan", 3, <<"\\tan">>), F("csc", 4, <<"\\csc">>), F("sec", 5, <<"\\sec">>), F("cot", 6, <<"\\cot">>), F("sinh", 13, <<"\\sinh">>), F("cosh", 14, <<"\\cosh">>), F("tanh", 15, <<"\\tanh">>)>>
Others == <<F("asin", 7, <<"\\arcsin">>), F("acos", 8, <<"\\arccos">>), F("atan", 9, <<"\\arctan">>), F("acsc", 10, <<"\\arccsc">>), F("asec", 11, <<"\\arcsec">>), F("acot", 12, <<"\\arccot">>),
            F("asinh", 16, <<"\\arsinh", "\\arcsinh", Op("arsinh"), Op("arcsinh")>>), F("acosh", 17, <<"\\arcosh", "\\arccosh", Op("arcosh"), Op("arccosh")>>), F("atanh", 18, <<"\\artanh", "\\arctanh", Op("artanh"), Op("arctanh")>>),
            F("floor", 30, <<"\\floor", Op("floor")>>), F("ceil", 31, <<"\\ceil", Op("ceil")>>), F("exp", 19, <<"\\exp">>)>>
InverseOf(id) == IF id <= 6 THEN id + 6 ELSE id + 3
Fn(id, a) == IF id = 30 THEN QI(QFloor(a)) ELSE IF id = 31 THEN QI(QCeil(a)) ELSE IF id = 19 THEN ExpV(a) ELSE H(id, a)
Sups == <<[t |-> "", v |-> QOne], [t |-> "^2", v |-> QI(2)], [t |-> "^{2}", v |-> QI(2)], [t |-> "^{-1}", v |-> QI(-1)], [t |-> "^{-2}", v |-> QI(-2)], [t |-> "^3", v |-> QI(3)], [t |-> "^{x}", v |-> QI(3)], [t |-> "^{1+1}", v |-> QI(2)], [t |-> "^x", v |-> QI(3)], [t |-> "^{y}", v |-> QI(-2)], [t |-> "^{-3}", v |-> QI(-3)]>>
Subs == <<[t |-> "_2", v |-> QI(2)], [t |-> "_{3}", v |-> QI(3)], [t |-> "_{10}", v |-> QI(10)], [t |-> "_x", v |-> QI(3)], [t |-> "_{x+4}", v |-> QI(7)], [t |-> "_{e}", v |-> ExpV(QOne)], [t |-> "_{\\frac12}", v |-> Q(1, 2)]>>
\* ways of writing the argument: 1-4 in parentheses, 5 braces, 6 brackets, 7 bare
ArgText(x, m) == IF m <= 4 THEN At(<<"(", "\\left(", "\\mleft(", " ( ">>, m - 1) \o x.t \o At(<<")", "\\right)", "\\mright)", " ) ">>, m - 1)
                 ELSE IF m = 5 THEN "{" \o x.t \o "}" ELSE IF m = 6 THEN "[" \o x.t \o "]" ELSE " " \o x.t
ArgOk(x, m) == m < 7 \/ (x.l >= 1 /\ x.first # "paren" /\ ~x.fn)
App(name, sup, v, x, m, lg) == E(name \o ArgText(x, m), PowV(v, sup.v), IF m <= 4 THEN 5 ELSE 2, "func", "cmd", m > 4, FALSE, lg)
AppTrig(f, sup, x, m) == IF sup.v = QI(-1) THEN App(f.forms[1] \o sup.t, [t |-> "", v |-> QOne], Fn(InverseOf(f.id), x.v), x, m, x.lg) ELSE App(f.forms[1] \o sup.t, sup, Fn(f.id, x.v), x, m, x.lg)
AppOther(f, sup, x, m, w) == App(At(f.forms, w) \o sup.t, sup, Fn(f.id, x.v), x, m, x.lg)
AppLog(sub, sup, x, m, w) == App("\\log" \o (IF (w % 2) = 0 THEN sub.t \o sup.t ELSE sup.t \o sub.t), sup, QDiv(LogV(x.v), LogV(sub.v)), x, m, TRUE)
AppLg(sup, x, m) == App("\\log" \o sup.t, sup, QDiv(LogV(x.v), LogV(QI(10))), x, m, TRUE)
AppLn(sup, x, m) == App("\\ln" \o sup.t, sup, LogV(x.v), x, m, TRUE)
Sqrt(x, w) == E(At(<<"\\sqrt{", "\\sqrt {">>, w) \o x.t \o "}", PowV(x.v, Q(1, 2)), 5, "func", "cmd", FALSE, FALSE, x.lg)
Root(n, x, w) == E("\\sqrt[" \o n.t \o "]{" \o x.t \o "}", PowV(x.v, QInv(n.v)), 5, "func", "cmd", FALSE, FALSE, x.lg)
EPow(x, w) == E(At(<<"e^{", "\\exponentialE^{", "e ^ {">>, w) \o x.t \o "}", ExpV(x.v), 5, "func", "cmd", FALSE, FALSE, x.lg)

SupSet(w) == IF Exhaustive THEN {1, 2, 3, 4, 5, 11} ELSE {(w % 11) + 1, 1, ((w \div 11) % 11) + 1}
Modes(w) == IF Exhaustive THEN {1, 2, 5, 6, 7} ELSE {(w % 7) + 1, 7, 1}
SupOk(i, v) == v # QZero
Applications(x, w) ==
  {AppTrig(Trig[k], Sups[i], x, m) : k \in 1..9, i \in SupSet(w), m \in {n \in Modes(w) : ArgOk(x, n)}}
  \cup {AppOther(Others[k], Sups[i], x, m, w) : k \in {n \in 1..12 : (n < 10 \/ Fn(Others[n].id, x.v) # QZero) /\ (n # 12 \/ ~x.lg)}, i \in SupSet(w \div 7), m \in {n \in Modes(w \div 3) : ArgOk(x, n)}}
  \cup {AppLog(Subs[k], Sups[i], x, m, w) : k \in (IF Exhaustive THEN 1..3 ELSE {(w % 7) + 1}), i \in SupSet(w \div 2), m \in {n \in Modes(w \div 5) : ArgOk(x, n)}}
  \cup {AppLg(Sups[i], x, m) : i \in SupSet(w), m \in {n \in Modes(w) : ArgOk(x, n)}} \cup {AppLn(Sups[i], x, m) : i \in SupSet(w), m \in {n \in Modes(w) : ArgOk(x, n)}}
  \cup {Sqrt(x, w), Root(Atom("3", QI(3), "digit", "digit"), x, w), Root(Atom("1+1", QI(2), "digit", "digit"), x, w)} \cup (IF x.lg THEN {} ELSE {EPow(x, w)})
Ok(e) == Abs(e.v[1]) < 3000 /\ e.v[2] < 3000 /\ Len(e.t) < 95
Unaries(x, w) == {e \in {Neg(x, w), Group(x, w), AbsE(x, w)} \cup (IF x.v # QZero /\ x.t # "e" /\ Abs(x.v[1]) < 50 /\ x.v[2] < 50 THEN {PowE(x, Atom(S(k), QI(k), "digit", "digit"), w) : k \in {2, -1}} ELSE {}) : Ok(e)}
Binaries(x, y, w) == {e \in {Sum(x, y, w), Dif(x, y, w), Mul(x, y, w), Jux(x, y, w)} \cup (IF y.v # QZero THEN {Div(x, y, w), Frac(x, y, w)} ELSE {}) : Ok(e)}

(* -------------------------------- behaviour ------------------------------- *)
Init == st = [phase |-> "build", s |-> <<>>, ops |-> 0, un |-> 0, ap |-> 0, lv |-> 0, w |-> 0]
N == Len(st.s)
Push == st.phase = "build" /\ N < 3 /\ st.lv < MaxLeaves /\ st.ops + N <= MaxOps /\ \E l \in Leaves : st' = [st EXCEPT !.s = Append(@, l), !.lv = @ + 1]
Style == st.phase = "build" /\ N > 0 /\ st.w = 0 /\ \E w \in Pick(1000) : st' = [st EXCEPT !.w = w + 1]
W == IF Exhaustive THEN st.ops * 7 + st.un * 3 + st.lv + Len(st.s[N].t) ELSE st.w
Ready == st.phase = "build" /\ N > 0 /\ (Exhaustive \/ st.w > 0)
Top(e) == SubSeq(st.s, 1, N - 1) \o <<e>>
Unary == Ready /\ st.un < MaxUnary /\ \E e \in Unaries(st.s[N], W) : st' = [st EXCEPT !.s = Top(e), !.un = @ + 1, !.w = 0]
Apply == Ready /\ st.ap < MaxApps /\ st.s[N].v[2] < 40 /\ Abs(st.s[N].v[1]) < 900 /\
         \E e \in (IF Exhaustive THEN {e \in Applications(st.s[N], W) : Ok(e)} ELSE {RandomElement(Applications(st.s[N], W))}) : Ok(e) /\ st' = [st EXCEPT !.s = Top(e), !.ap = @ + 1, !.w = 0]
Binary == Ready /\ N >= 2 /\ Abs(st.s[N].v[1]) + Abs(st.s[N - 1].v[1]) < 1200 /\ st.s[N].v[2] + st.s[N - 1].v[2] < 900
          /\ \E e \in Binaries(st.s[N - 1], st.s[N], W) : st' = [st EXCEPT !.s = SubSeq(@, 1, N - 2) \o <<e>>, !.ops = @ + 1, !.w = 0]
Done == st.phase = "build" /\ N = 1 /\ st.ap >= (IF Exhaustive THEN 1 ELSE 2) /\ (Exhaustive \/ st.ops >= MaxOps - 2 \/ st.w % 5 = 0) /\ st' = [st EXCEPT !.phase = "done"]
\* an argument written without parentheses ends before a function; the parser continues past an explicit sign of multiplication
Marked == <<[a |-> "\\sin x \\cdot \\cos y", v |-> QMul(H(1, QI(3)), H(2, QI(-2)))], [a |-> "\\sin x / \\cos y", v |-> QDiv(H(1, QI(3)), H(2, QI(-2)))],
           [a |-> "\\ln x * \\ln y", v |-> QMul(LogV(QI(3)), LogV(QI(-2)))]>>
Explicit == st.phase = "build" /\ N = 0 /\ Exhaustive /\ \E i \in 1..Len(Marked) : st' = [st EXCEPT !.phase = "done", !.s = <<Atom(Marked[i].a, Marked[i].v, "func", "cmd")>>]
Next == Push \/ (~Exhaustive /\ Style) \/ Unary \/ Apply \/ Binary \/ Done \/ Explicit

(* ------------------------------- properties ------------------------------- *)
Reduced == \A i \in 1..N : LET v == st.s[i].v IN (v[2] > 0 /\ Gcd(v[1], v[2]) = 1) \/ v = QZero
OpenEnds == \A i \in 1..N : st.s[i].open => st.s[i].l <= 2
\* the interpretations tell the functions, and their arguments, apart
ASSUME \A f, g \in 1..18 : f # g => \E a \in {<<3, 1>>, <<-2, 1>>, <<1, 2>>} : H(f, a) # H(g, a)
ASSUME \A f \in 1..18 : \A a, b \in {<<3, 1>>, <<-2, 1>>, <<1, 2>>, <<5, 3>>, <<9, 1>>, <<6, 1>>, <<-6, 1>>} : H(f, a) = H(f, b) => a = b
Emit == st.phase = "done" => Out([op |-> "value", a |-> st.s[1].t, n |-> st.s[1].v[1], d |-> st.s[1].v[2], why |-> S(st.ops) \o "+" \o S(st.ap)])
=============================================================================
