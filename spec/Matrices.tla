------------------------------- MODULE Matrices -------------------------------
(* C08.  Matrices in their notations: a matrix is a shape and its entries; a   *)
(* vector's entries are the same whether it is written as a row or a column.   *)
EXTENDS Base
CONSTANTS Nums,      \* numeric entries, ten-thousandths
          Syms,      \* sequence of sequences: writings of one non-numeric entry
          Shapes,    \* <<rows, columns>>
          Writes,    \* writings tried per matrix
          MaxEdits, Finish
VARIABLES st

\* an entry: [n |-> number, s |-> 0] or [n |-> 0, s |-> class]
Entries == {[n |-> v, s |-> 0] : v \in Nums} \cup {[n |-> 0, s |-> c] : c \in 1..Len(Syms)}
NumEq(g, p) == LET d == Abs(g - p) IN IF g = 0 THEN d < 10 ELSE IF Abs(g) >= 10000 THEN d < 50 ELSE d * 1000 < Abs(g)
EntryEq(g, p) == g.s = p.s /\ (g.s = 0 => NumEq(g.n, p.n))
\* a matrix: r, c, e (row by row)
IsVec(m) == m.r = 1 \/ m.c = 1
Eq(g, p) == /\ (g.r = p.r /\ g.c = p.c) \/ (IsVec(g) /\ IsVec(p) /\ Len(g.e) = Len(p.e))
            /\ \A i \in 1..Len(g.e) : EntryEq(g.e[i], p.e[i])

(* -------------------------------- writings -------------------------------- *)
At(s, i) == s[(i % Len(s)) + 1]
Strip(v) == IF v % 10000 = 0 THEN S(v \div 10000) ELSE IF v % 1000 = 0 THEN Fixed(v \div 1000, 1) ELSE IF v % 100 = 0 THEN Fixed(v \div 100, 2)
            ELSE IF v % 10 = 0 THEN Fixed(v \div 10, 3) ELSE Fixed(v, 4)
EntryText(x, w) == IF x.s > 0 THEN At(Syms[x.s], w)
    ELSE IF w % 2 = 1 /\ x.n % 5000 = 0 /\ x.n % 10000 # 0 THEN Sign(x.n) \o "\\frac{" \o S(Abs(x.n) \div 5000) \o "}{2}" ELSE Strip(x.n)
Row(m, i, w, sep) == Join([j \in 1..m.c |-> EntryText(m.e[(i - 1) * m.c + j], w + i + j)], sep)
RowsText(m, w, amp, end) == Join([i \in 1..m.r |-> Row(m, i, w, amp)], end)
Envs == <<"pmatrix", "bmatrix", "matrix", "vmatrix", "Bmatrix", "Vmatrix", "cases">>
Amp(w) == At(<<"&", " & ", "& ">>, w)
End(w) == At(<<"\\\\", " \\\\ ", "\\\\ ">>, w \div 2)
Env(m, w, name, spec) == "\\begin{" \o name \o "}" \o spec \o At(<<"", " ">>, w) \o RowsText(m, w, Amp(w), End(w)) \o At(<<"", " ">>, w \div 3) \o "\\end{" \o name \o "}"
Cols(m, w) == "{" \o Rep(At(<<"c", "r", "l">>, w), m.c) \o "}"
Nested(m, w) == IF m.r = 1 THEN "[" \o Row(m, 1, w, At(<<",", ", ">>, w)) \o "]"
                ELSE "[" \o Join([i \in 1..m.r |-> "[" \o Row(m, i, w, At(<<",", ", ">>, w)) \o "]"], At(<<",", ", ">>, w)) \o "]"
\* the notations of a matrix: tag and text
Notations == <<"env", "nested", "env", "array", "env", "boxed", "env", "dollar", "plainarray", "env", "doubled", "env", "env">>
Tag(w) == At(Notations, w)
Text(m, w) == LET t == Tag(w) IN
    CASE t = "env" \/ t = "doubled" -> Env(m, w, At(Envs, w), "")
      [] t = "nested" -> Nested(m, w)
      [] t = "array" -> Env(m, w, "array", Cols(m, w))
      [] t = "plainarray" -> Env(m, w, "array", "")
      [] t = "boxed" -> At(<<"\\left[", "\\left(">>, w \div 2) \o Env(m, w, "array", Cols(m, w)) \o At(<<"\\right]", "\\right)">>, w \div 2)
      [] OTHER -> "$" \o Env(m, w, At(Envs, w), "") \o "$"

(* --------------------------------- editing -------------------------------- *)
M(r, c, e) == [r |-> r, c |-> c, e |-> e]
Cell(m, i, j) == m.e[(i - 1) * m.c + j]
Build(r, c, F(_, _)) == M(r, c, [x \in 1..(r * c) |-> F(((x - 1) \div c) + 1, ((x - 1) % c) + 1)])
Transpose(m) == Build(m.c, m.r, LAMBDA i, j : Cell(m, j, i))
DropRow(m, k) == Build(m.r - 1, m.c, LAMBDA i, j : Cell(m, IF i < k THEN i ELSE i + 1, j))
DropCol(m, k) == Build(m.r, m.c - 1, LAMBDA i, j : Cell(m, i, IF j < k THEN j ELSE j + 1))
AddRow(m, x) == Build(m.r + 1, m.c, LAMBDA i, j : IF i <= m.r THEN Cell(m, i, j) ELSE x)
AddCol(m, x) == Build(m.r, m.c + 1, LAMBDA i, j : IF j <= m.c THEN Cell(m, i, j) ELSE x)
CopyRow(m) == Build(m.r + 1, m.c, LAMBDA i, j : Cell(m, Min2(i, m.r), j))
SwapCells(m, x, y) == [m EXCEPT !.e = [@ EXCEPT ![x] = m.e[y], ![y] = m.e[x]]]
Reshapes(m) == {M(r, Len(m.e) \div r, m.e) : r \in {k \in 1..Len(m.e) : Len(m.e) % k = 0}}
Edits(m) ==
    {Transpose(m)} \cup Reshapes(m)
    \cup (IF m.r * m.c - m.c >= 2 THEN {DropRow(m, k) : k \in 1..m.r} ELSE {}) \cup (IF m.r * m.c - m.r >= 2 THEN {DropCol(m, k) : k \in 1..m.c} ELSE {})
    \cup {AddRow(m, [n |-> 0, s |-> 0]), CopyRow(m), AddCol(m, [n |-> 10000, s |-> 0])}
    \cup {SwapCells(m, x, y) : x, y \in {k \in 1..Len(m.e) : k \in {1, 2, m.c, m.c + 1, Len(m.e)}}}
    \cup {[m EXCEPT !.e[k] = x] : k \in 1..Len(m.e), x \in Entries}
    \cup {[m EXCEPT !.e[k].n = -@] : k \in 1..Len(m.e)}

Init == \E s \in Shapes : st = [phase |-> "truth", sh |-> s, g |-> M(0, 0, <<>>), p |-> M(0, 0, <<>>), n |-> 0, w |-> 0]
Fill == /\ st.phase = "truth" /\ Len(st.g.e) < st.sh[1] * st.sh[2]
        /\ \E x \in Entries : LET g == M(st.sh[1], st.sh[2], Append(st.g.e, x)) IN st' = [st EXCEPT !.g = g, !.p = g]
Ready == st.phase = "truth" /\ Len(st.g.e) = st.sh[1] * st.sh[2] /\ \E w \in 0..(Writes - 1) : st' = [st EXCEPT !.phase = "edit", !.w = w]
Edit == st.phase = "edit" /\ st.n < MaxEdits /\ \E p \in Edits(st.p) : p.r <= 7 /\ p.c <= 6 /\ st' = [st EXCEPT !.p = p, !.n = st.n + 1]
Done == st.phase = "edit" /\ Finish /\ st.n >= 1 /\ st' = [st EXCEPT !.phase = "done"]
Next == Fill \/ Ready \/ Edit \/ Done

(* ------------------------------- properties ------------------------------- *)
TransposeTwice == st.g.r > 0 /\ Len(st.g.e) = st.g.r * st.g.c => Transpose(Transpose(st.g)) = st.g
Reflexive == Eq(st.g, st.g)
Sizes == st.phase # "truth" => Len(st.p.e) = st.p.r * st.p.c
Judged == IF Finish THEN st.phase = "done" ELSE st.phase = "edit"
W2 == st.w * 2 + 3 * st.n + Len(st.p.e) + st.p.c + (Abs(st.p.e[1].n) \div 10000)
\* one-row nested lists have their own form, so nested lists are compared with each other only when they have it alike
Comparable == ~(Tag(st.w) = "nested" /\ Tag(W2) = "nested" /\ (st.g.r = 1) # (st.p.r = 1))
Emit == (Judged /\ Comparable) =>
    /\ Out([op |-> "eq", a |-> Text(st.g, st.w), b |-> Text(st.p, W2), exp |-> Eq(st.g, st.p), why |-> Tag(st.w) \o "~" \o Tag(W2),
            da |-> Tag(st.w) = "doubled", db |-> Tag(W2) = "doubled"])
=============================================================================
