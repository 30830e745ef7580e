------------------------------ MODULE Settings ------------------------------
(* C22.  The parser's settings over histories of calls: the values given to a  *)
(* call (each thread has its own call), the real-number assumption, declared   *)
(* matrix symbols.  A call reads the values it was given and the assumption    *)
(* set at the time; a call, failing or not, leaves nothing behind but what it  *)
(* declares when it succeeds.                                                  *)
EXTENDS Base
CONSTANTS Mode,      \* "each" (every template and leaf, one call) or "history"
          Threads, MaxOps
VARIABLES st

T == 1..Threads
H(f, a) == LET n == ((f * 31 + a[1] * 17 + a[2] * 7) % 97) - 48 IN Q(IF n = 0 THEN 49 ELSE n, 3)

(* ----------------------------- texts of calls ----------------------------- *)
\* the ordinary letters, and the variables without a value, stand for these in the conformance check
Sym == [x |-> <<3, 1>>, y |-> <<-2, 1>>, a |-> <<8, 1>>, w |-> <<13, 1>>]
Names == <<"a", "b", "x", "x_1", "\\alpha ", "7">>
Free == <<<<7, 2>>, <<-4, 1>>, <<11, 1>>, <<6, 1>>, <<5, 1>>, <<-3, 1>>>>
\* values of calls: for each name 0 (none) or its value and how it is given
No == [k |-> "no", v |-> QZero]
V(k, n, d) == [k |-> k, v |-> <<n, d>>]
Vals == << <<No, No, No, No, No, No>>,
           <<V("int", 3, 1), No, No, No, No, No>>,
           <<V("int", -2, 1), V("rat", 1, 2), No, No, No, No>>,
           <<No, No, V("int", 4, 1), V("frac", 7, 3), No, No>>,
           <<V("str", 5, 3), No, V("int", 1, 1), No, V("rat", 2, 1), V("int", 9, 1)>>,
           <<V("w", 13, 1), V("int", 6, 1), No, No, No, V("str", -1, 4)>>,
           <<V("int", 0, 1), V("int", 0, 1), No, V("int", 1, 1), V("frac", -5, 2), No>>,
           <<No, V("rat", -3, 7), V("w", 13, 1), No, V("int", 12, 1), No>> >>
\* leaves
Leaves == <<[k |-> "num", t |-> "2", i |-> 0, p |-> FALSE], [k |-> "sym", t |-> "x", i |-> 0, p |-> FALSE], [k |-> "sym", t |-> "y", i |-> 0, p |-> FALSE], [k |-> "sym", t |-> "a", i |-> 0, p |-> FALSE]>>
          \o [j \in 1..12 |-> LET i == ((j - 1) % 6) + 1 IN [k |-> "var", t |-> "\\variable{" \o Names[i] \o "}" \o (IF j > 6 THEN "\\%" ELSE ""), i |-> i, p |-> j > 6]]
LeafV(l, vals) == LET raw == CASE l.k = "num" -> <<2, 1>>
                               [] l.k = "sym" -> Sym[l.t]
                               [] OTHER -> IF vals[l.i].k = "no" THEN Free[l.i] ELSE vals[l.i].v
                  IN IF l.p THEN QDiv(raw, QI(100)) ELSE raw
\* templates: texts around the operands; any: fit for symbols that are not real
Tm(x, y, z, op, any) == [t |-> <<x, y, z>>, op |-> op, any |-> any]
Tpls == << Tm("", "", "", "id", TRUE), Tm("", "+", "", "add", TRUE), Tm("", "-", "", "sub", TRUE), Tm("", "\\cdot ", "", "mul", TRUE), Tm("\\frac{", "}{", "}", "div", TRUE), Tm("", "\\div ", "", "div", TRUE),
           Tm("\\left(", "\\right)^2+", "", "sqadd", TRUE), Tm("-", "", "", "neg", TRUE), Tm("|", "|\\cdot ", "", "absmul", TRUE), Tm("\\max(", ",", ")", "max", FALSE), Tm("\\min(2,", ",", ")", "min2", FALSE),
           Tm("\\lfloor ", " \\rfloor +", "", "flooradd", FALSE), Tm("\\lceil ", " \\rceil", "", "ceil", FALSE), Tm("\\sin(", ")+", "", "sinadd", TRUE), Tm("\\cos{", "}", "", "cos", TRUE), Tm("\\tan^{2}(", ")", "", "tansq", TRUE),
           Tm("f(", ")+", "", "fadd", TRUE), Tm("\\sum_{k=1}^{3} (", " k)", "", "sumk", TRUE), Tm("\\sum_{k=1}^{2} (", "+k)", "", "sumadd", TRUE), Tm("\\prod_{k=1}^{2} (", "\\cdot k)", "", "prodk", TRUE),
           Tm("\\int_{0}^{", "} 1 dt", "", "id", TRUE), Tm("\\int_{0}^{1} (", "\\cdot 2t) dt", "", "id", TRUE), Tm("\\int_{", "}^{", "} 1 dt", "rsub", TRUE), Tm("\\lim_{t \\to ", "} (t+1)", "", "succ", TRUE), Tm("\\lim_{t \\to 1} (", "\\cdot t)", "", "id", TRUE),
           Tm("\\frac{d}{dt}(", "\\cdot t)", "", "id", TRUE), Tm("\\frac{d}{dt}(t \\cdot ", "+", ")", "id", TRUE), Tm("(t+1)|_{t=", "}", "", "succ", TRUE), Tm("\\begin{vmatrix} ", " & 2 \\\\ 3 & ", " \\end{vmatrix}", "det", TRUE),
           Tm("\\begin{pmatrix} ", " \\\\ ", " \\end{pmatrix}", "vec", TRUE), Tm("\\left[", ", ", "\\right]", "vec", TRUE), Tm("\\{", "; ", "\\}", "vec", TRUE), Tm("", " = ", "", "eq", TRUE), Tm("", " < ", "", "lt", FALSE), Tm("", " \\geq ", "", "ge", FALSE), Tm("", " \\ne ", "", "ne", TRUE),
           Tm("\\sqrt{(", ")^2}", "", "abs", FALSE), Tm("\\frac{\\frac{", "}{2}}{\\frac{3}{", "}}", "nest", TRUE), Tm("2^{", "-", "}", "pow2", TRUE), Tm("(", ",", ")", "none", TRUE) >>
Arity(p) == IF p.op \in {"id", "neg", "ceil", "cos", "tansq", "sumk", "sumadd", "prodk", "succ", "abs"} /\ p.t[3] = "" THEN 1 ELSE 2
\* "lim" and "at" close a brace after their only operand
Text(p, a, b) == IF Arity(p) = 1 THEN p.t[1] \o a \o p.t[2] ELSE p.t[1] \o a \o p.t[2] \o b \o p.t[3]
Ok(p, a, b) == CASE p.op \in {"div", "nest"} -> b # QZero
                 [] p.op = "none" -> FALSE
                 [] p.op = "pow2" -> QIsInt(QSub(a, b)) /\ Abs(QSub(a, b)[1]) < 10
                 [] OTHER -> TRUE
Sq(a) == QMul(a, a)
Value(p, a, b) == CASE p.op = "id" -> a [] p.op = "add" -> QAdd(a, b) [] p.op = "sub" -> QSub(a, b) [] p.op = "rsub" -> QSub(b, a) [] p.op = "mul" -> QMul(a, b) [] p.op = "div" -> QDiv(a, b)
                    [] p.op = "sqadd" -> QAdd(Sq(a), b) [] p.op = "neg" -> QNeg(a) [] p.op = "absmul" -> QMul(QAbs(a), b) [] p.op = "max" -> (IF QLt(a, b) THEN b ELSE a)
                    [] p.op = "min2" -> (LET m == IF QLt(a, b) THEN a ELSE b IN IF QLt(m, QI(2)) THEN m ELSE QI(2)) [] p.op = "flooradd" -> QAdd(QI(QFloor(a)), b) [] p.op = "ceil" -> QI(QCeil(a))
                    [] p.op = "sinadd" -> QAdd(H(1, a), b) [] p.op = "cos" -> H(2, a) [] p.op = "tansq" -> Sq(H(3, a)) [] p.op = "fadd" -> QAdd(H(40, a), b)
                    [] p.op = "sumk" -> QMul(a, QI(6)) [] p.op = "sumadd" -> QAdd(QMul(a, QI(2)), QI(3)) [] p.op = "prodk" -> QMul(Sq(a), QI(2)) [] p.op = "succ" -> QAdd(a, QOne)
                    [] p.op = "det" -> QSub(QMul(a, b), QI(6)) [] p.op = "abs" -> QAbs(a) [] p.op = "nest" -> QDiv(QMul(a, b), QI(6)) [] p.op = "pow2" -> QPow(QI(2), QSub(a, b)[1]) [] OTHER -> QZero
Kind(p) == IF p.op \in {"vec", "eq", "lt", "ge", "ne"} THEN p.op ELSE "num"
Result(p, a, b) == IF Kind(p) = "num" THEN <<Value(p, a, b)>> ELSE <<a, b>>
ValsOut(i) == [j \in 1..6 |-> [name |-> Names[j], k |-> Vals[i][j].k, n |-> Vals[i][j].v[1], d |-> Vals[i][j].v[2]]]
\* functions are interpreted arbitrarily, so not where the calculus around or inside them is evaluated
Mixed(p, q) == \/ p.op \in {"fadd", "pow2"} \/ q.op = "none"
               \/ p.op \in {"id", "rsub", "succ", "sumk", "sumadd", "prodk"} /\ q.op \in {"sinadd", "fadd", "max", "abs", "absmul", "sumk", "succ"}
               \/ p.op = "det" /\ q.op = "sinadd"
               \/ p.op \in {"sinadd", "cos", "tansq"} /\ q.op \in {"sumk", "succ"}
\* a call with its specified result; nested: the first operand is itself a compound
Inner == {i \in DOMAIN Tpls : Tpls[i].op \in {"add", "sub", "mul", "div", "sinadd", "max", "sumk", "succ", "det", "abs", "fadd", "absmul"}}
Call(i, la, lb, vi, j, lc) ==
  LET p == Tpls[i]  vals == Vals[vi]  b == LeafV(Leaves[lb], vals)  q == Tpls[j]
      c == LeafV(Leaves[lc], vals)  a0 == LeafV(Leaves[la], vals)
      nest == j > 0
      a == IF nest THEN (IF Ok(q, a0, c) THEN Value(q, a0, c) ELSE QZero) ELSE a0
      at == IF nest THEN "{(" \o Text(q, Leaves[la].t, Leaves[lc].t) \o ")}" ELSE Leaves[la].t
      small == Abs(a[1]) < 1000 /\ a[2] < 1000 /\ Small(b) /\ (nest => ~Mixed(p, q))
  IN [text |-> Text(p, at, Leaves[lb].t), vals |-> vi, ok |-> Ok(p, a, b) /\ (nest => Ok(q, a0, c)), any |-> p.any /\ (nest => q.any), kind |-> Kind(p),
      res |-> IF small /\ Ok(p, a, b) THEN Result(p, a, b) ELSE <<>>, small |-> small]

(* -------------------------------- histories ------------------------------- *)
Idle == [k |-> "idle"]
Bad == <<"\\frac{\\variable{a}", "\\variable{a}+", "x \\variable{b} )(", "(\\variable{a}, 2)", "A \\in \\mathbb{R}^{2 \\times 3}, \\variable{a} \\in 5", "\\variable{x_}", "@ \\variable{a}", "a_{\\variable{a}", "\\sqrt[\\variable{a}", "\\variable{a} \\in R">>
Op(x) == Append(st.ops, x)
Blank == [k |-> "", t |-> 0, text |-> "", vals |-> 1, real |-> "", kind |-> "", res |-> <<>>, shape |-> ""]
Init == st = [phase |-> Mode, ops |-> <<>>, real |-> "unset", now |-> [t \in T |-> Idle], decl |-> "none", given |-> [t \in T |-> 1]]
Room == st.phase = "history" /\ Len(st.ops) < MaxOps
AllIdle == \A t \in T : st.now[t].k = "idle"
SetReal == Room /\ AllIdle /\ \E v \in {RandomElement({"unset", "true", "false"})} : st' = [st EXCEPT !.real = v, !.ops = Op([Blank EXCEPT !.k = "real", !.real = v])]
\* matrix symbols: declared by a call, set, or reset
Declare == Room /\ AllIdle /\ \E v \in {RandomElement({"2x3", "3x1"})} : st' = [st EXCEPT !.decl = v, !.ops = Op([Blank EXCEPT !.k = "declare", !.shape = v])]
SetDecl == Room /\ AllIdle /\ \E v \in {RandomElement({"none", "none", "2x2"})} : st' = [st EXCEPT !.decl = v, !.ops = Op([Blank EXCEPT !.k = "set", !.shape = v])]
AskDecl == Room /\ AllIdle /\ st' = [st EXCEPT !.ops = Op([Blank EXCEPT !.k = "ask", !.shape = st.decl, !.real = st.real])]
Fail == Room /\ \E i \in {RandomElement(DOMAIN Bad)}, v \in {RandomElement(DOMAIN Vals)} : st' = [st EXCEPT !.ops = Op([Blank EXCEPT !.k = "fail", !.text = Bad[i], !.vals = v])]
Begin == Room /\ \E t \in {RandomElement(T)} : st.now[t].k = "idle" /\ \E i \in {RandomElement(DOMAIN Tpls)}, la \in {RandomElement(DOMAIN Leaves)}, lb \in {RandomElement(DOMAIN Leaves)}, lc \in {RandomElement(DOMAIN Leaves)},
             v \in {RandomElement(DOMAIN Vals)}, j \in {RandomElement(0..(2 * Cardinality(Inner)))} :
             LET jj == IF j = 0 \/ j > Cardinality(Inner) THEN 0 ELSE SetToSeqB(Inner)[j]
                 c == Call(i, la, lb, v, jj, lc) IN
             c.ok /\ c.small /\ (st.real = "false" => c.any) /\
             st' = [st EXCEPT !.now[t] = [k |-> "call"], !.given[t] = v,
                    !.ops = Op([Blank EXCEPT !.k = "begin", !.t = t, !.text = c.text, !.vals = v, !.real = st.real, !.kind = c.kind, !.res = c.res])]
End == st.phase = "history" /\ \E t \in T : st.now[t].k # "idle" /\ st' = [st EXCEPT !.now[t] = Idle, !.given[t] = 1, !.ops = Op([Blank EXCEPT !.k = "end", !.t = t])]
Stop == st.phase = "history" /\ AllIdle /\ Len(st.ops) >= MaxOps - 1 /\ st' = [st EXCEPT !.phase = "done"]
\* every template with every leaf in each place
Each == st.phase = "each" /\ \E i \in DOMAIN Tpls, la \in DOMAIN Leaves, v \in DOMAIN Vals : \E lb \in {((la * 5 + v * 3 + i) % Len(Leaves)) + 1}, r \in {<<"unset", "true", "false">>[((la + v + i) % 3) + 1]} :
             LET c == Call(i, la, lb, v, 0, 1) IN
             c.ok /\ (r = "false" => c.any) /\ st' = [phase |-> "one", op |-> [Blank EXCEPT !.k = "call", !.text = c.text, !.vals = v, !.real = r, !.kind = c.kind, !.res = c.res]]
Next == SetReal \/ Declare \/ SetDecl \/ AskDecl \/ Fail \/ Begin \/ End \/ Stop \/ Each

(* ------------------------------- properties ------------------------------- *)
\* a call in progress has the values it was given; an idle thread has none
Given == Mode = "history" => \A t \in T : st.now[t].k = "idle" => st.given[t] = 1
Emit == CASE st.phase = "done" -> Out([op |-> "history", ops |-> [j \in DOMAIN st.ops |-> [st.ops[j] EXCEPT !.vals = ValsOut(@)]]])
          [] st.phase = "one" -> Out([op |-> "call", x |-> [st.op EXCEPT !.vals = ValsOut(@)]])
          [] OTHER -> TRUE
=============================================================================
