------------------------------ MODULE Intervals ------------------------------
(* C07.  Answers written as unions of intersections of intervals.  The line   *)
(* is cut at the named points; a set is a set of its pieces, so two answers   *)
(* denote the same set exactly when they cover the same pieces.               *)
EXTENDS Base
CONSTANTS Points,    \* sequence of sequences: exact writings of one endpoint, in increasing order
          MaxTerms, MaxCaps, MaxEdits, Writes, Finish,
          Near         \* endpoints within the tolerance of C06: answers that are pairs as well are left to it
VARIABLES st

N == Len(Points)
\* endpoint 0 is -infinity, N+1 is infinity; open at both
Iv(a, b, l, r) == [a |-> a, b |-> b, l |-> l, r |-> r]
Legal(i) == /\ (i.a < i.b \/ (i.a = i.b /\ i.l = "[" /\ i.r = "]" /\ i.a \in 1..N))
            /\ (i.a = 0 => i.l = "(") /\ (i.b = N + 1 => i.r = ")") /\ i.a <= N /\ i.b >= 1
All == {i \in [a : 0..N, b : 1..(N + 1), l : {"(", "["}, r : {")", "]"}] : Legal(i)}
\* piece 2k is the k-th point, piece 2k+1 lies between it and the next
Pieces(i) == {x \in 1..(2 * N + 1) : (x > 2 * i.a \/ (x = 2 * i.a /\ i.l = "[")) /\ (x < 2 * i.b \/ (x = 2 * i.b /\ i.r = "]"))}
RECURSIVE CapAll(_)
CapAll(s) == IF Len(s) = 1 THEN Pieces(s[1]) ELSE Pieces(Head(s)) \cap CapAll(Tail(s))
Denotes(e) == UNION {CapAll(e[k]) : k \in 1..Len(e)}
AllLegal(e) == \A k \in 1..Len(e) : \A j \in 1..Len(e[k]) : Legal(e[k][j])
Equal(g, p) == AllLegal(g) /\ AllLegal(p) /\ Denotes(g) = Denotes(p)

RECURSIVE RunEnd(_, _)
RunEnd(P, x) == IF x + 1 \in P THEN RunEnd(P, x + 1) ELSE x
RECURSIVE Canon(_)
Canon(P) == IF P = {} THEN <<>>
    ELSE LET lo == CHOOSE x \in P : \A y \in P : x <= y  hi == RunEnd(P, lo) IN
         <<<<Iv(lo \div 2, (hi + 1) \div 2, IF lo % 2 = 0 THEN "[" ELSE "(", IF hi % 2 = 0 THEN "]" ELSE ")")>>>> \o Canon(P \ (lo..hi))

(* -------------------------------- writings -------------------------------- *)
At(s, i) == s[(i % Len(s)) + 1]
Point(k, w) == IF k = 0 THEN "-\\infty" ELSE IF k = N + 1 THEN At(<<"\\infty", "+\\infty">>, w) ELSE At(Points[k], w)
IvText(i, w) ==
    LET big == w % 5 = 3 IN
    (IF big THEN "\\left" ELSE "") \o i.l \o Point(i.a, w) \o At(<<",", ", ">>, w) \o Point(i.b, w + 1) \o (IF big THEN "\\right" ELSE "") \o i.r
TermText(t, w) == Join([j \in 1..Len(t) |-> IvText(t[j], w + j)], At(<<"\\cap", " \\cap ", "∩">>, w))
Text(e, w) == At(<<"", "", "x \\in ", "x\\in", "", "t \\in ">>, w) \o Join([k \in 1..Len(e) |-> TermText(e[k], w + 2 * k)], At(<<"\\cup", " \\cup ", "\\cup ", "⋃">>, w \div 2))

(* --------------------------------- editing -------------------------------- *)
Change(i) == {x \in {Iv(y, i.b, i.l, i.r) : y \in 0..N} \cup {Iv(i.a, y, i.l, i.r) : y \in 1..(N + 1)}
                    \cup {Iv(i.a, i.b, IF i.l = "[" THEN "(" ELSE "[", i.r), Iv(i.a, i.b, i.l, IF i.r = "]" THEN ")" ELSE "]")}
                    \cup {Iv(i.b, i.a, l, r) : l \in {"(", "["}, r \in {")", "]"}} :
                  Legal(x) \/ (x.a \in 1..N /\ x.b \in 1..N /\ x.a > x.b)}
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Swap(s, i, j) == [m \in 1..Len(s) |-> IF m = i THEN s[j] ELSE IF m = j THEN s[i] ELSE s[m]]
Split(i) == {<<<<Iv(i.a, m, i.l, c[1])>>, <<Iv(m, i.b, c[2], i.r)>>>> : m \in {x \in 1..N : x > i.a /\ x < i.b}, c \in {<<")", "[">>, <<"]", "(">>, <<")", "(">>, <<"]", "[">>}}
Edits(e) ==
    {[e EXCEPT ![k] = [e[k] EXCEPT ![j] = x]] : k \in 1..Len(e), j \in 1..1, x \in UNION {Change(e[m][1]) : m \in 1..Len(e)}}
    \cup {Swap(e, i, j) : i, j \in 1..Len(e)}
    \cup (IF Len(e) > 1 THEN {Drop(e, k) : k \in 1..Len(e)} ELSE {})
    \cup UNION {{SubSeq(e, 1, k - 1) \o s \o SubSeq(e, k + 1, Len(e)) : s \in Split(e[k][1])} : k \in {x \in 1..Len(e) : Len(e[x]) = 1}}
    \cup (IF AllLegal(e) /\ Denotes(e) # {} THEN {Canon(Denotes(e))} ELSE {})
Widen(e) == {[e EXCEPT ![k] = Append(e[k], i)] : k \in {x \in 1..Len(e) : Len(e[x]) <= MaxCaps}, i \in All}
            \cup {Append(e, <<i>>) : i \in All}

Init == st = [phase |-> "truth", g |-> <<>>, p |-> <<>>, n |-> 0, w |-> 0]
Grow == /\ st.phase = "truth"
        /\ \E i \in All : \E g \in ({Append(st.g, <<i>>) : x \in {y \in {1} : Len(st.g) < MaxTerms}}
                                    \cup (IF st.g # <<>> /\ Len(Last(st.g)) <= MaxCaps THEN {[st.g EXCEPT ![Len(st.g)] = Append(Last(st.g), i)]} ELSE {})) :
              st' = [st EXCEPT !.g = g, !.p = g]
Ready == st.phase = "truth" /\ st.g # <<>> /\ \E w \in 0..(Writes - 1) : st' = [st EXCEPT !.phase = "edit", !.w = w]
Edit == /\ st.phase = "edit" /\ st.n < MaxEdits
        /\ \E p \in Edits(st.p) \cup (IF Finish THEN Widen(st.p) ELSE {}) : st' = [st EXCEPT !.p = p, !.n = st.n + 1]
Done == st.phase = "edit" /\ Finish /\ st.n >= 1 /\ st' = [st EXCEPT !.phase = "done"]
Next == Grow \/ Ready \/ Edit \/ Done

(* ------------------------------- properties ------------------------------- *)
CanonSame == AllLegal(st.p) => Denotes(Canon(Denotes(st.p))) = Denotes(st.p)
CanonUnique == st.phase # "truth" /\ AllLegal(st.p) => (Canon(Denotes(st.g)) = Canon(Denotes(st.p))) = Equal(st.g, st.p)
Judged == IF Finish THEN st.phase = "done" ELSE st.phase = "edit"
W2 == st.w * 3 + 5 * st.n + Len(st.p) + st.p[1][1].a + 2 * st.p[1][1].b
PairLike(e) == Len(e) = 1 /\ Len(e[1]) = 1 /\ <<e[1][1].l, e[1][1].r>> \in {<<"(", ")">>, <<"[", "]">>}
Emit == Judged /\ ~(Near /\ PairLike(st.g) /\ PairLike(st.p)) =>
    /\ Out([op |-> "eq", a |-> Text(st.g, st.w), b |-> Text(st.p, W2), exp |-> Equal(st.g, st.p), why |-> S(Len(st.g)) \o "~" \o S(Len(st.p))])
    /\ Out([op |-> "eq", a |-> Text(st.p, W2), b |-> Text(st.g, st.w), exp |-> Equal(st.g, st.p), why |-> S(Len(st.p)) \o "~" \o S(Len(st.g))])
=============================================================================
