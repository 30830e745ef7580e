--------------------------------- MODULE Arith ---------------------------------
(* C16.  Arithmetic expressions.  A stack of written expressions, each with its *)
(* exact value and its grammar level; operators take from the stack and put     *)
(* parentheses where the level of an operand requires them (and sometimes where *)
(* it does not).  The value is computed alongside by exact rational arithmetic. *)
EXTENDS Base
CONSTANTS LeafSeq,     \* <<>> for any leaf, or the leaf texts allowed at each position
          MaxOps, MaxUnary, MaxLeaves, Exhaustive
VARIABLES st

Pick(n) == IF Exhaustive THEN 0..(n - 1) ELSE {RandomElement(0..(n - 1))}
At(s, i) == s[(i % Len(s)) + 1]
\* levels: 5 atom, 4 power, 3 postfix, 2 signed or juxtaposed, 1 product, 0 sum
E(t, v, l, f, g, b) == [t |-> t, v |-> v, l |-> l, first |-> f, last |-> g, tags |-> b, sk |-> ""]
\* sk: the operators in it, as a tree (the driver replays some texts of every such tree)
K1(n, x, e) == [e EXCEPT !.sk = n \o x.sk]
K2(n, x, y, e) == [e EXCEPT !.sk = n \o "<" \o x.sk \o "," \o y.sk \o ">"]
\* tags: contains bars, a symbol (gcd and lcm are then those of polynomials), a thousands comma (which an
\* argument list would split), a modulo (sympy orders them wrongly or not at all).  first/last: kind of the first and last token: "digit", "letter", "minus", "paren", "cmd"
Digit(t, v) == E(t, v, 5, "digit", "digit", {})
Letter(t, v) == E(t, v, 5, "letter", "letter", {"sym"})
Ints == <<"0", "1", "2", "3", "4", "5", "6", "7", "10", "12">>
IntV == <<0, 1, 2, 3, 4, 5, 6, 7, 10, 12>>
Vars == <<[t |-> "x", v |-> <<3, 1>>], [t |-> "y", v |-> <<-2, 1>>], [t |-> "a", v |-> <<1, 2>>], [t |-> "\\alpha ", v |-> <<5, 3>>], [t |-> "x_{1}", v |-> <<4, 1>>], [t |-> "k", v |-> <<7, 1>>]>>
Leaves == {Digit(Ints[i], QI(IntV[i])) : i \in 1..10}
     \cup {Digit("0.5", Q(1, 2)), Digit(".25", Q(1, 4)), Digit("1.2", Q(6, 5)), E("1,000", QI(1000), 5, "digit", "digit", {"th"}), E("2,500.5", Q(5001, 2), 5, "digit", "digit", {"th"}), E("1,250\\%", Q(25, 2), 5, "digit", "cmd", {"th"}), Digit("3.0", QI(3)), Digit("2.50", Q(5, 2))}
     \cup {E("50\\%", Q(1, 2), 5, "digit", "cmd", {}), E("2.5\\%", Q(1, 40), 5, "digit", "cmd", {}), E("300\\%", QI(3), 5, "digit", "cmd", {})}
     \cup {Letter(Vars[i].t, Vars[i].v) : i \in 1..6}
     \cup {E("\\frac12", Q(1, 2), 5, "cmd", "digit", {}), E("\\frac{3}{4}", Q(3, 4), 5, "cmd", "cmd", {}), E("\\frac3{5}", Q(3, 5), 5, "cmd", "cmd", {}), E("\\sqrt{9}", QI(3), 5, "cmd", "cmd", {}),
           E("\\sqrt4", QI(2), 5, "cmd", "digit", {}), E("\\sqrt[3]{8}", QI(2), 5, "cmd", "cmd", {}), E("\\sqrt[4]{16}", QI(2), 5, "cmd", "cmd", {}), E("\\sqrt[3]{\\frac{27}{8}}", Q(3, 2), 5, "cmd", "cmd", {}), E("2E3", QI(2000), 5, "digit", "digit", {}), E("5E-1", Q(1, 2), 5, "digit", "digit", {})}

(* -------------------------------- brackets -------------------------------- *)
Pairs == <<<<"(", ")">>, <<"\\left(", "\\right)">>, <<"[", "]">>, <<"\\{", "\\}">>, <<"{", "}">>, <<"\\left[", "\\right]">>, <<"\\lbrace ", "\\rbrace ">>, <<"\\lgroup ", "\\rgroup ">>, <<"\\mleft(", "\\mright)">>, <<"( ", " )">>>>
Group(e, w) == LET p == At(Pairs, w) IN E(p[1] \o e.t \o p[2], e.v, 5, IF p[1] \in {"(", "[", "( "} THEN "paren" ELSE "cmd", "cmd", e.tags)
Need(e, l, w) == IF e.l < l THEN Group(e, w) ELSE IF (w % 11) = 10 THEN Group(e, (w \div 11)) ELSE e

(* -------------------------------- operators ------------------------------- *)
Sum(x, y, w) == LET a == Need(x, 0, w) b == Need(y, 1, w + 3) IN E(a.t \o At(<<"+", " + ">>, w) \o b.t, QAdd(a.v, b.v), 0, a.first, b.last, a.tags \cup b.tags)
Dif(x, y, w) == LET a == Need(x, 0, w) b == Need(y, 1, w + 3) IN E(a.t \o At(<<"-", " - ">>, w) \o b.t, QSub(a.v, b.v), 0, a.first, b.last, a.tags \cup b.tags)
Mul(x, y, w) == LET a == Need(x, 1, w) b == Need(y, 2, w + 3) IN E(a.t \o At(<<"*", " \\cdot ", " \\times ", " * ">>, w) \o b.t, QMul(a.v, b.v), 1, a.first, b.last, a.tags \cup b.tags)
Div(x, y, w) == LET a == Need(x, 1, w) b == Need(y, 2, w + 3) IN E(a.t \o At(<<"/", " \\div ", ":", " / ">>, w) \o b.t, QDiv(a.v, b.v), 1, a.first, b.last, a.tags \cup b.tags)
Mod(x, y, w) == LET a == Need(x, 1, w) b == Need(y, 2, w + 3) IN E(a.t \o " \\mod " \o b.t, QMod(a.v, b.v), 1, a.first, b.last, a.tags \cup b.tags \cup {"mod"})
\* juxtaposition: no sign inside, nothing that would join with its neighbour into one token or an application
Jux(x, y, w) == LET a == IF x.l >= 3 \/ (x.l = 2 /\ x.first # "minus") THEN x ELSE Group(x, w)
                    b0 == IF y.l >= 3 THEN y ELSE Group(y, w + 3)
                    b == IF b0.first = "digit" THEN Group(b0, w) ELSE b0
                    a2 == IF a.last = "letter" /\ b.first = "paren" THEN Group(a, w + 1) ELSE a
                IN E(a2.t \o At(<<"", " ">>, w) \o b.t, QMul(a.v, b.v), 2, a2.first, b.last, a.tags \cup b.tags)
Neg(x, w) == LET a == Need(x, 2, w) IN E("-" \o At(<<"", " ">>, w) \o a.t, QNeg(a.v), 2, "minus", a.last, a.tags)
Pos(x, w) == LET a == Need(x, 2, w) IN E("+" \o a.t, a.v, 2, "minus", a.last, a.tags)
PowE(x, y, w) == LET a == IF x.l = 5 /\ x.t \notin {"2E3"} THEN x ELSE Group(x, w) IN
    E(a.t \o "^" \o (IF y.l = 5 /\ y.first = "digit" /\ Len(y.t) = 1 /\ w % 2 = 0 THEN y.t ELSE IF y.l = 5 /\ y.first = "letter" /\ Len(y.t) = 1 /\ w % 2 = 0 THEN y.t ELSE "{" \o y.t \o "}"),
      QPow(a.v, y.v[1]), 4, a.first, IF a.last = "letter" THEN "letter" ELSE "cmd", a.tags \cup y.tags)
RECURSIVE Fct(_)
Fct(n) == IF n <= 1 THEN 1 ELSE n * Fct(n - 1)
Fact(x, w) == LET a == IF x.l = 5 THEN x ELSE Group(x, w) IN E(a.t \o "!", QI(Fct(a.v[1])), 3, a.first, "cmd", a.tags)
Frac(x, y, w) == E(At(<<"\\frac{", "\\dfrac{", "\\tfrac{">>, w) \o x.t \o At(<<"}{", "} {">>, w) \o y.t \o "}", QDiv(x.v, y.v), 5, "cmd", "cmd", x.tags \cup y.tags)
AbsE(x, w) == LET p == IF "bar" \in x.tags THEN At(<<<<"\\left|", "\\right|">>, <<"\\lvert ", "\\rvert ">>>>, w) ELSE At(<<<<"|", "|">>, <<"\\left|", "\\right|">>, <<"\\lvert ", "\\rvert ">>, <<"\\vert ", "\\vert ">>, <<"\\mleft|", "\\mright|">>>>, w)
              IN E(p[1] \o x.t \o p[2], QAbs(x.v), 5, "bar", "cmd", x.tags \cup {"bar"})
Floor(x, w) == LET p == At(<<<<"\\lfloor ", "\\rfloor ">>, <<"\\left\\lfloor ", "\\right\\rfloor ">>, <<"\\llcorner ", "\\lrcorner ">>, <<"\\floor(", ")">>, <<"\\operatorname{floor}(", ")">>>>, w) IN E(p[1] \o x.t \o p[2], QI(QFloor(x.v)), 5, "cmd", "cmd", x.tags)
Ceil(x, w) == LET p == At(<<<<"\\lceil ", "\\rceil ">>, <<"\\left\\lceil ", "\\right\\rceil ">>, <<"\\ulcorner ", "\\urcorner ">>, <<"\\ceil(", ")">>, <<"\\operatorname{ceil}(", ")">>>>, w) IN E(p[1] \o x.t \o p[2], QI(QCeil(x.v)), 5, "cmd", "cmd", x.tags)
\* an n-th root of an n-th power; below zero an even one
Root(x, w) == LET n == IF QLt(x.v, QZero) THEN 2 + 2 * (w % 2) ELSE (w % 3) + 2 IN
    E(At(<<"\\sqrt[" \o S(n) \o "]{", "\\sqrt[" \o S(n - 1) \o "+1]{", IF n = 2 THEN "\\sqrt{" ELSE "\\sqrt[" \o S(n) \o "] {">>, w \div 3) \o Group(x, 0).t \o "^{" \o S(n) \o "}}", QAbs(x.v), 5, "cmd", "cmd", x.tags)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Binom(x, y, w) == E(At(<<"\\binom{" \o x.t \o "}{" \o y.t \o "}", "{" \o x.t \o " \\choose " \o y.t \o "}", "\\tbinom{" \o x.t \o "}{" \o y.t \o "}", "\\dbinom{" \o x.t \o "}{" \o y.t \o "}">>, w), QI(Choose(x.v[1], y.v[1])), 5, "cmd", "cmd", x.tags \cup y.tags)
Args(x, y, w) == At(<<"(", "\\left(">>, w) \o x.t \o At(<<",", ", ">>, w) \o y.t \o At(<<")", "\\right)">>, w)
Two(f, x, y, w, v) == E(f \o Args(x, y, w), v, 5, "cmd", "cmd", x.tags \cup y.tags)
QMax(a, b) == IF QLt(a, b) THEN b ELSE a
QMin(a, b) == IF QLt(a, b) THEN a ELSE b

Nat1(e, m) == QIsInt(e.v) /\ e.v[1] >= 0 /\ e.v[1] <= m
Pos1(e) == QIsInt(e.v) /\ e.v[1] >= 1 /\ e.v[1] <= 60
Ok(e) == Small(e.v) /\ Len(e.t) < 100
Unaries(x, w) == {e \in {K1("-", x, Neg(x, w)), K1("+", x, Pos(x, w)), K1("()", x, Group(x, w)), K1("|", x, AbsE(x, w)), K1("f", x, Floor(x, w)), K1("c", x, Ceil(x, w))} \cup (IF Nat1(x, 7) THEN {K1("!", x, Fact(x, w))} ELSE {})
                        \cup (IF Abs(x.v[1]) < 20 /\ x.v[2] < 12 THEN {K1(IF QLt(x.v, QZero) THEN "r-" ELSE "r", x, Root(x, w))} ELSE {})
                        \cup (IF Abs(x.v[1]) < 1200 /\ x.v[2] < 1200 THEN {K1("^", x, PowE(x, Digit(S(k), QI(k)), w)) : k \in {2, 3, 0, 1}} ELSE {}) \cup (IF x.v # QZero /\ Abs(x.v[1]) < 1200 /\ x.v[2] < 1200 THEN {K1("^-", x, PowE(x, E("-" \o S(k), QI(-k), 2, "minus", "digit", {}), w)) : k \in {1, 2}} ELSE {}) : Ok(e)}
Fits(x, y) == Abs(x.v[1]) < 4000 /\ x.v[2] < 400 /\ Abs(y.v[1]) < 4000 /\ y.v[2] < 400 /\ Len(x.t) + Len(y.t) < 120
Binaries(x, y, w) == {e \in {K2("+", x, y, Sum(x, y, w)), K2("-", x, y, Dif(x, y, w)), K2("*", x, y, Mul(x, y, w)), K2("j", x, y, Jux(x, y, w))} \cup (IF (x.tags \cup y.tags) \cap {"th", "mod"} # {} THEN {} ELSE {K2("M", x, y, Two("\\max", x, y, w, QMax(x.v, y.v))), K2("m", x, y, Two("\\min", x, y, w, QMin(x.v, y.v)))})
                        \cup (IF y.v # QZero THEN {K2("/", x, y, Div(x, y, w)), K2("q", x, y, Frac(x, y, w))} ELSE {}) \cup (IF QLt(QZero, y.v) THEN {K2("%", x, y, Mod(x, y, w))} ELSE {})
                        \cup (IF Pos1(x) /\ Pos1(y) /\ x.tags \cup y.tags \subseteq {"bar", "mod"} THEN {K2("g", x, y, Two(At(<<"\\gcd", "\\operatorname{gcd}">>, w), x, y, w, QI(Gcd(x.v[1], y.v[1])))), K2("l", x, y, Two(At(<<"\\lcm", "\\operatorname{lcm}">>, w), x, y, w, QI((x.v[1] * y.v[1]) \div Gcd(x.v[1], y.v[1]))))} ELSE {})
                        \cup (IF Nat1(x, 9) /\ Nat1(y, 9) /\ y.v[1] <= x.v[1] /\ "mod" \notin x.tags \cup y.tags THEN {K2("b", x, y, Binom(x, y, w))} ELSE {})
                        \cup (IF QIsInt(y.v) /\ Abs(y.v[1]) <= 3 /\ (x.v # QZero \/ y.v[1] > 0) /\ Abs(x.v[1]) < 30 /\ x.v[2] < 30 THEN {K2("^", x, y, PowE(x, y, w))} ELSE {}) : Ok(e)}

(* -------------------------------- behaviour ------------------------------- *)
Init == st = [phase |-> "build", s |-> <<>>, ops |-> 0, un |-> 0, lv |-> 0, w |-> 0]
N == Len(st.s)
Push == st.phase = "build" /\ N < 3 /\ st.lv < MaxLeaves /\ st.ops + N <= MaxOps /\ \E l \in Leaves :
            (IF LeafSeq = <<>> THEN TRUE ELSE l.t \in LeafSeq[st.lv + 1]) /\ st' = [st EXCEPT !.s = Append(@, l), !.lv = @ + 1]
Style == st.phase = "build" /\ N > 0 /\ st.w = 0 /\ \E w \in Pick(240) : st' = [st EXCEPT !.w = w + 1]
W == IF Exhaustive THEN st.ops * 7 + st.un * 3 + st.lv + Len(st.s[N].t) ELSE st.w
Ready == st.phase = "build" /\ N > 0 /\ (Exhaustive \/ st.w > 0)
Unary == Ready /\ st.un < MaxUnary /\ \E e \in Unaries(st.s[N], W) : st' = [st EXCEPT !.s = SubSeq(@, 1, N - 1) \o <<e>>, !.un = @ + 1, !.w = 0]
Binary == Ready /\ N >= 2 /\ Fits(st.s[N - 1], st.s[N]) /\ \E e \in Binaries(st.s[N - 1], st.s[N], W) :
            st' = [st EXCEPT !.s = SubSeq(@, 1, N - 2) \o <<e>>, !.ops = @ + 1, !.w = 0]
Done == st.phase = "build" /\ N = 1 /\ st.ops + st.un >= (IF Exhaustive THEN 1 ELSE 2) /\ (Exhaustive \/ st.ops >= MaxOps - 2 \/ st.w % 5 = 0) /\ st' = [st EXCEPT !.phase = "done"]
Next == Push \/ (~Exhaustive /\ Style) \/ Unary \/ Binary \/ Done

(* ------------------------------- properties ------------------------------- *)
Reduced == \A i \in 1..N : LET v == st.s[i].v IN (v[2] > 0 /\ Gcd(v[1], v[2]) = 1) \/ v = QZero
FloorBelow == st.phase = "done" => LET v == st.s[1].v IN QLe(QI(QFloor(v)), v) /\ QLt(v, QI(QFloor(v) + 1)) /\ QCeil(v) = -QFloor(QNeg(v))
ModRange == st.phase = "done" => \A b \in {<<1, 1>>, <<3, 2>>, <<5, 1>>} : LET m == QMod(st.s[1].v, b) IN QLe(QZero, m) /\ QLt(m, b)
Emit == st.phase = "done" => Out([op |-> "value", a |-> st.s[1].t, n |-> st.s[1].v[1], d |-> st.s[1].v[2], why |-> st.s[1].sk])
=============================================================================
