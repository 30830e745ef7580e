------------------------------ MODULE Complexes ------------------------------
(* C11.  Complex answers under the Complex answer type.  A number is a pair of *)
(* parts, each a rational times a root; it is written in evaluated form or as  *)
(* an expression tree over Gaussian integers whose value the model computes.   *)
EXTENDS Base
CONSTANTS Parts,            \* rational coefficients of the parts
          Roots,            \* subset of {"", "\\sqrt{2}", "\\sqrt{3}", "\\pi "}
          Gauss,            \* integers of leaves
          MaxNodes, Writes, Finish
VARIABLES st

C(a, b) == <<a, b>>
CAdd(x, y) == <<QAdd(x[1], y[1]), QAdd(x[2], y[2])>>
CNeg(x) == <<QNeg(x[1]), QNeg(x[2])>>
CMul(x, y) == <<QSub(QMul(x[1], y[1]), QMul(x[2], y[2])), QAdd(QMul(x[1], y[2]), QMul(x[2], y[1]))>>
Norm(x) == QAdd(QMul(x[1], x[1]), QMul(x[2], x[2]))
Conj(x) == <<x[1], QNeg(x[2])>>
CDiv(x, y) == LET n == Norm(y) z == CMul(x, Conj(y)) IN <<QDiv(z[1], n), QDiv(z[2], n)>>
Swap(x) == <<x[2], x[1]>>
CZero == <<QZero, QZero>>

\* trees: [o |-> "leaf", v, kids]
Leaf(v) == [o |-> "leaf", v |-> v, kids |-> <<>>]
Node(o, ks) == [o |-> o, v |-> CZero, kids |-> ks]
RECURSIVE Val(_)
Val(t) == IF t.o = "leaf" THEN t.v
          ELSE IF t.o = "neg" THEN CNeg(Val(t.kids[1])) ELSE IF t.o = "sq" THEN LET x == Val(t.kids[1]) IN CMul(x, x)
          ELSE LET x == Val(t.kids[1]) y == Val(t.kids[2]) IN
               CASE t.o = "add" -> CAdd(x, y) [] t.o = "sub" -> CAdd(x, CNeg(y)) [] t.o = "mul" -> CMul(x, y) [] OTHER -> CDiv(x, y)

(* -------------------------------- writings -------------------------------- *)
At(s, i) == s[(i % Len(s)) + 1]
Unit(w) == IF w % 2 = 0 THEN "i" ELSE "I"
\* magnitude q*root without a unit
Mag(q, r, w) ==
    LET n == Abs(q[1]) d == q[2] body == IF r # "" /\ n = 1 THEN r ELSE S(n) \o r IN
    IF d = 1 THEN body
    ELSE IF d = 2 /\ r = "" /\ w % 3 = 1 THEN Fixed((n * 10) \div 2, 1)
    ELSE IF w % 3 = 2 THEN "\\frac{" \o S(n) \o "}{" \o S(d) \o "}" \o r
    ELSE At(<<"\\frac{", "\\dfrac{">>, w) \o body \o "}{" \o S(d) \o "}"
\* the same with the unit
Imag(q, r, w) ==
    LET n == Abs(q[1]) d == q[2] u == Unit(w) m == Mag(q, r, w \div 2) one == n = 1 /\ d = 1 /\ r = "" IN
    IF one THEN (IF w % 5 = 4 THEN "1" \o u ELSE u)
    ELSE CASE (w \div 2) % 7 = 0 -> m \o u
           [] (w \div 2) % 7 = 1 -> m \o " \\cdot " \o u
           [] (w \div 2) % 7 = 2 -> u \o "*" \o m
           [] (w \div 2) % 7 = 3 -> m \o "*" \o u
           [] (w \div 2) % 7 = 4 -> IF d = 1 THEN u \o " \\times " \o m ELSE "\\frac{" \o (IF n = 1 /\ r # "" THEN r ELSE S(n) \o r) \o u \o "}{" \o S(d) \o "}"
           [] (w \div 2) % 7 = 5 -> u \o " " \o m
           [] OTHER -> m \o " " \o u
Minus(q) == IF q[1] < 0 THEN "-" ELSE ""
Cartesian(x, r, w) ==
    IF x[2] = QZero THEN (IF w % 6 = 5 THEN Minus(x[1]) \o Mag(x[1], r[1], w) \o "+0" \o Unit(w) ELSE IF x[1] = QZero THEN "0" ELSE Minus(x[1]) \o Mag(x[1], r[1], w))
    ELSE IF x[1] = QZero /\ w % 4 # 3 THEN Minus(x[2]) \o Imag(x[2], r[2], w)
    ELSE LET re == Minus(x[1]) \o (IF x[1] = QZero THEN "0" ELSE Mag(x[1], r[1], w))
             sp == At(<<"", " ">>, w \div 3)
         IN CASE w % 5 \in {0, 1, 2} -> re \o sp \o (IF x[2][1] < 0 THEN "-" ELSE "+") \o sp \o Imag(x[2], r[2], w)
              [] w % 5 = 3 -> Minus(x[2]) \o Imag(x[2], r[2], w) \o sp \o (IF x[1][1] < 0 THEN "-" ELSE "+") \o sp \o (IF x[1] = QZero THEN "0" ELSE Mag(x[1], r[1], w))
              [] OTHER -> "-(" \o (LET y == CNeg(x) IN Minus(y[1]) \o (IF y[1] = QZero THEN "0" ELSE Mag(y[1], r[1], w)) \o sp \o (IF y[2][1] < 0 THEN "-" ELSE "+") \o sp \o Imag(y[2], r[2], w)) \o ")"
\* over a common denominator
Common(x, w) == LET d == x[1][2] * x[2][2] y == <<QMul(x[1], QI(d)), QMul(x[2], QI(d))>> IN
    IF d = 1 \/ y[2] = QZero THEN Cartesian(x, <<"", "">>, w)
    ELSE At(<<"\\frac{", "(">>, w) \o Cartesian(y, <<"", "">>, 5 * (w \div 2)) \o At(<<"}{", ")/(">>, w) \o S(d) \o At(<<"}", ")">>, w)
RECURSIVE Tree(_, _)
Tree(t, w) ==
    LET p(k) == "(" \o Tree(t.kids[k], w) \o ")"
        bare(k) == IF t.kids[k].o = "leaf" THEN Cartesian(t.kids[k].v, <<"", "">>, 10 * (w \div 2) + (w % 2)) ELSE p(k) IN
    CASE t.o = "leaf" -> Cartesian(t.v, <<"", "">>, w)
      [] t.o = "neg" -> "-" \o p(1)
      [] t.o = "sq" -> p(1) \o At(<<"^2", "^{2}">>, w)
      [] t.o = "add" -> bare(1) \o "+" \o p(2)
      [] t.o = "sub" -> bare(1) \o "-" \o p(2)
      [] t.o = "mul" -> p(1) \o At(<<"", " \\cdot ", "*">>, w) \o p(2)
      [] OTHER -> At(<<"\\frac{" \o Tree(t.kids[1], w) \o "}{" \o Tree(t.kids[2], w) \o "}", p(1) \o "/" \o p(2)>>, w)
Text(x, w) == IF x.k = "tree" THEN Tree(x.t, w) ELSE IF x.k = "common" THEN Common(x.v, w) ELSE Cartesian(x.v, x.r, w)

(* -------------------------------- behaviour ------------------------------- *)
NoRoots == <<"", "">>
Num(v, r) == [k |-> "parts", v |-> v, r |-> r, t |-> Leaf(CZero)]
AsTree(t) == [k |-> "tree", v |-> Val(t), r |-> NoRoots, t |-> t]
\* a zero part has no root
Canon(x) == [v |-> x.v, r |-> <<IF x.v[1] = QZero THEN "" ELSE x.r[1], IF x.v[2] = QZero THEN "" ELSE x.r[2]>>]
Equal(x, y) == Canon(x) = Canon(y)
Small1(v) == Abs(v[1][1]) < 400 /\ v[1][2] < 60 /\ Abs(v[2][1]) < 400 /\ v[2][2] < 60
SmallTree(t) == Small1(Val(t))
Leaves == {Leaf(<<QI(a), QI(b)>>) : a \in Gauss, b \in Gauss}
Init == \E w \in 0..(Writes - 1) : st = [phase |-> "truth", g |-> Num(CZero, NoRoots), p |-> Num(CZero, NoRoots), n |-> 0, w |-> w, u |-> 0, l |-> Leaf(CZero), o |-> ""]
TakeParts == /\ st.phase = "truth" /\ st.n = 0
             /\ \E a \in Parts, b \in Parts : <<a, b>> # CZero /\ st' = [st EXCEPT !.g = Num(<<a, b>>, NoRoots), !.phase = "roots"]
TakeRoots == /\ st.phase = "roots"
             /\ \E r \in Roots, s \in Roots : /\ (st.g.v[1] = QZero => r = "") /\ (st.g.v[2] = QZero => s = "")
                                             /\ st' = [st EXCEPT !.g = Num(@.v, <<r, s>>), !.phase = "edit"]
TakeLeaf == st.phase = "truth" /\ st.n = 0 /\ MaxNodes > 0 /\ \E l \in Leaves : st' = [st EXCEPT !.g = AsTree(l), !.n = 1]
Binary(t, l) == {u \in {Node(o, <<t, l>>) : o \in {"add", "sub", "mul"}} \cup (IF l.v # CZero THEN {Node("div", <<t, l>>)} ELSE {})
                       \cup {Node("sub", <<l, t>>), Node("mul", <<l, t>>)} \cup (IF Val(t) # CZero THEN {Node("div", <<l, t>>)} ELSE {}) : SmallTree(u)}
Pick == /\ st.phase = "truth" /\ st.n > 0 /\ st.n < MaxNodes /\ st.o = ""
        /\ \/ \E l \in Leaves : st' = [st EXCEPT !.l = l, !.o = "binary"]
           \/ st.g.t.o # "leaf" /\ st' = [st EXCEPT !.o = "unary"]
Grow == /\ st.o # ""
        /\ \E u \in IF st.o = "binary" THEN Binary(st.g.t, st.l) ELSE {v \in {Node("neg", <<st.g.t>>), Node("sq", <<st.g.t>>)} : SmallTree(v)} :
             st' = [st EXCEPT !.g = AsTree(u), !.n = @ + 1, !.o = ""]
Stop == st.phase = "truth" /\ st.n > (IF Finish THEN 1 ELSE 0) /\ st.o = "" /\ st.g.v # CZero /\ st' = [st EXCEPT !.phase = "edit"]
Shapes(v, r) == {Num(v, r)} \cup (IF r = NoRoots THEN {[Num(v, r) EXCEPT !.k = "common"]} ELSE {})
Other(q) == {QAdd(q, QI(1)), QSub(q, QI(1)), QNeg(q), QMul(q, QI(2))}
Edits == LET v == st.g.v r == st.g.r IN
    Shapes(v, r)
    \cup Shapes(Conj(v), r) \cup Shapes(CNeg(v), r) \cup Shapes(Swap(v), <<r[2], r[1]>>) \cup Shapes(<<v[1], QZero>>, <<r[1], "">>) \cup Shapes(<<QZero, v[2]>>, <<"", r[2]>>)
    \cup Shapes(<<v[2], QZero>>, <<r[2], "">>) \cup Shapes(<<QAdd(v[1], v[2]), QZero>>, <<r[1], "">>)
    \cup UNION {Shapes(<<a, v[2]>>, r) : a \in Other(v[1])} \cup UNION {Shapes(<<v[1], b>>, r) : b \in Other(v[2])}
    \cup UNION {Shapes(v, <<s, t>>) : s \in Roots, t \in Roots}
Edit == st.phase = "edit" /\ \E p \in Edits : st' = [st EXCEPT !.p = p, !.phase = "write"]
Write == st.phase = "write" /\ \E u \in IF Finish THEN {RandomElement(0..(Writes - 1))} ELSE {(st.w + Abs(st.p.v[1][1]) + 2 * Abs(st.p.v[2][1])) % Writes} : st' = [st EXCEPT !.u = u, !.phase = "picked"]
Done == st.phase = "picked" /\ st' = [st EXCEPT !.phase = "done"]
Next == TakeParts \/ TakeRoots \/ TakeLeaf \/ Pick \/ Grow \/ Stop \/ Edit \/ Write \/ Done

(* ------------------------------- properties ------------------------------- *)
ConjugateDiffers == st.phase = "edit" => (Equal(st.g, Num(Conj(st.g.v), st.g.r)) <=> st.g.v[2] = QZero)
Field == st.phase = "edit" /\ st.g.v # CZero => CMul(st.g.v, CDiv(<<QOne, QZero>>, st.g.v)) = <<QOne, QZero>>
Emit == st.phase = "done" =>
    LET a == Text(st.g, st.w) b == Text(st.p, st.u) flip == st.u % 2 = 1 IN
    Out([op |-> "type", a |-> IF flip THEN b ELSE a, b |-> IF flip THEN a ELSE b, t |-> IF st.u % 3 = 0 THEN "Complex Number" ELSE "Complex", exp |-> Equal(st.g, st.p),
         why |-> st.g.k \o "~" \o st.p.k \o ": " \o Text(Num(Canon(st.g).v, Canon(st.g).r), 0)])
=============================================================================
