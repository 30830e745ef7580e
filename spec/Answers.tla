------------------------------- MODULE Answers -------------------------------
(* C05, C06, C12.  Compound answers: unordered lists, tuples and lists of     *)
(* numbers, named values and further tuples; when two of them match; and how  *)
(* an answer type widens that.  A ground truth is assembled element by        *)
(* element, the prediction starts as the same answer and is edited.           *)
EXTENDS Base
CONSTANTS Values,      \* numbers, in ten-thousandths
          Names,       \* names of named values, "" for a plain number
          Tops,        \* brackets of the ground truth: "set" "par" "brk"
          Inner,       \* brackets of nested elements (a set, possibly empty)
          MaxLen, MaxEdits,
          Writes,      \* how many writings per answer
          Types,       \* answer types, a sequence; <<>> when is_equiv is judged
          Finish       \* TRUE: emit only finished histories (simulation)
VARIABLES st

Num(v, n) == [k |-> "num", v |-> v, n |-> n, s |-> <<>>]
Box(k, s) == [k |-> k, v |-> 0, n |-> "", s |-> s]

(* ------------------------------ when they match --------------------------- *)
NumEq(g, p) == LET d == Abs(g - p) IN
    IF g = 0 THEN d < 10 ELSE IF Abs(g) >= 10000 THEN d < 50 ELSE d * 1000 < Abs(g)
RECURSIVE Eq(_, _)
RECURSIVE Pairing(_, _)
Pairing(s, t) == s = <<>> \/ \E j \in 1..Len(t) : Eq(Head(s), t[j]) /\ Pairing(Tail(s), SubSeq(t, 1, j - 1) \o SubSeq(t, j + 1, Len(t)))
Eq(g, p) == /\ g.k = p.k
            /\ CASE g.k = "num" -> NumEq(g.v, p.v)
                 [] g.k = "set" -> Len(g.s) = Len(p.s) /\ Pairing(g.s, p.s)
                 [] OTHER -> Len(g.s) = Len(p.s) /\ \A i \in 1..Len(g.s) : Eq(g.s[i], p.s[i])

(* the answer types: what each allows beyond that *)
AsSet(x) == IF x.k = "num" THEN x ELSE Box("set", x.s)
AsVec(x) == IF x.k = "num" THEN x ELSE Box("brk", x.s)
RECURSIVE TypeEq(_, _, _)
TypeEq(ts, g, p) == Eq(g, p) \/ (ts # {} /\ LET t == CHOOSE t \in ts : TRUE IN
        \/ (t = "Set" /\ Eq(AsSet(g), AsSet(p)))
        \/ (t = "Vector" /\ Eq(AsVec(g), AsVec(p)))
        \/ TypeEq(ts \ {t}, g, p))
Kinds(t) == CASE t = "Set" -> {"Set"} [] t = "Vector" -> {"Vector"} [] t = "Set or Vector" -> {"Set", "Vector"}
              [] t = "Vector(s)" -> {"Vector"} [] t = "Unordered Set" -> {"Set"} [] t = "Function, Set" -> {"Set"}
              [] t = "Vector, Complex" -> {"Vector"} [] OTHER -> {}

(* -------------------------------- writings -------------------------------- *)
Strip(v) == IF v % 10000 = 0 THEN S(v \div 10000)
            ELSE IF v % 1000 = 0 THEN Fixed(v \div 1000, 1) ELSE IF v % 100 = 0 THEN Fixed(v \div 100, 2)
            ELSE IF v % 10 = 0 THEN Fixed(v \div 10, 3) ELSE Fixed(v, 4)
NumText(v, w) ==
    IF w % 3 = 1 /\ v % 10000 # 0 /\ v % 2500 = 0
    THEN Sign(v) \o "\\frac{" \o S(Abs(v) \div (IF v % 5000 = 0 THEN 5000 ELSE 2500)) \o "}{" \o (IF v % 5000 = 0 THEN "2" ELSE "4") \o "}"
    ELSE IF w % 3 = 2 /\ v % 100 = 0 THEN Fixed(v \div 100, 2) ELSE Strip(v)
RECURSIVE Text(_, _)
RECURSIVE InnerText(_, _)
Seps == <<",", ", ", " , ">>
Words == <<" and ", " or ", "\\text{ and }", "\\text{ or }", ", and ", ", or ">>
At(s, i) == s[(i % Len(s)) + 1]
Elems(x, w) == [i \in 1..Len(x.s) |-> InnerText(x.s[i], w + i)]
\* a set inside another answer always has its braces
InnerText(x, w) == IF x.k = "set" THEN At(<<"\\{", "{", "\\left\\{">>, w) \o Join(Elems(x, w), At(Seps, w)) \o At(<<"\\}", "}", "\\right\\}">>, w)
                   ELSE Text(x, w)
WordJoin(e, w) == Join(SubSeq(e, 1, Len(e) - 1), At(Seps, w)) \o At(Words, w) \o Last(e)
Text(x, w) ==
    CASE x.k = "num" -> (IF x.n = "" THEN "" ELSE x.n \o At(<<"=", " = ", "= ">>, w)) \o NumText(x.v, w)
      [] x.k = "par" -> At(<<"(", "\\left(", "( ">>, w \div 2) \o Join(Elems(x, w), At(Seps, w)) \o At(<<")", "\\right)", " )">>, w \div 2)
      [] x.k = "brk" -> At(<<"[", "\\left[">>, w \div 2) \o Join(Elems(x, w), At(Seps, w)) \o At(<<"]", "\\right]">>, w \div 2)
      [] x.k = "set" -> LET e == Elems(x, w) IN
            CASE w % 7 = 0 -> Join(e, ",")
              [] w % 7 = 1 -> Join(e, ", ")
              [] w % 7 = 2 -> "{" \o Join(e, ", ") \o "}"
              [] w % 7 = 3 -> "\\{" \o Join(e, ",") \o "\\}"
              [] w % 7 = 4 -> WordJoin(e, w \div 7)
              [] w % 7 = 5 -> "\\left\\{" \o Join(e, ", ") \o "\\right\\}"
              [] OTHER -> Join(e, At(Words, w \div 7))

(* --------------------------------- editing -------------------------------- *)
Atoms == {Num(v, n) : v \in Values, n \in Names}
Pairs == {Box(k, <<a, b>>) : k \in Inner, a \in {Num(v, "") : v \in Values}, b \in {Num(v, "") : v \in Values}}
Grouped == IF "set" \in Inner THEN {"par", "set"} ELSE {"par"}
Pool == Atoms \cup Pairs
Value(x) == IF x.k = "num" THEN <<x.v>> ELSE IF x.k = "set" THEN <<x.k, Min2(x.s[1].v, x.s[2].v), Max2(x.s[1].v, x.s[2].v)>> ELSE <<x.k>> \o [i \in 1..Len(x.s) |-> x.s[i].v]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => Value(s[i]) # Value(s[j])
Fine(x) == /\ x.k = "set" => Distinct(x.s)
           /\ \A i \in 1..Len(x.s) : x.s[i].k = "set" => Distinct(x.s[i].s)
Swap(s, i, j) == [m \in 1..Len(s) |-> IF m = i THEN s[j] ELSE IF m = j THEN s[i] ELSE s[m]]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Near(v) == {u \in Values : Abs(u - v) < 200 /\ u # v}
EditElem(x) == IF x.k = "num" THEN {Num(u, x.n) : u \in Values} \cup {Num(x.v, n) : n \in Names} \cup {Num(-x.v, x.n)}
               ELSE {Box(x.k, Swap(x.s, 1, 2))} \cup {Box(k, x.s) : k \in Inner}
                    \cup {Box(x.k, [x.s EXCEPT ![i] = Num(u, "")]) : i \in 1..2, u \in Near(x.s[1].v) \cup Near(x.s[2].v)} \cup {x.s[1]}
Edits(x) ==
    {Box(x.k, Swap(x.s, i, j)) : i, j \in 1..Len(x.s)}
    \cup {Box(x.k, [x.s EXCEPT ![i] = e]) : i \in 1..Len(x.s), e \in UNION {EditElem(x.s[m]) : m \in 1..Len(x.s)}}
    \cup {Box(k, x.s) : k \in {"set", "par", "brk"}}
    \cup (IF Len(x.s) > 2 THEN {Box(x.k, Drop(x.s, i)) : i \in 1..Len(x.s)} ELSE {})
    \cup {Box(x.k, Append(x.s, e)) : e \in {Num(v, "") : v \in Values}}
    \cup (IF Inner = {} THEN {} ELSE {Box(x.k, <<Box(k, SubSeq(x.s, 1, 2))>> \o SubSeq(x.s, 3, Len(x.s))) : k \in Grouped, y \in {z \in {x} : Len(x.s) > 2 /\ x.s[1].k = "num" /\ x.s[2].k = "num" /\ x.s[1].n = "" /\ x.s[2].n = ""}})

Init == \E k \in Tops : st = [phase |-> "truth", g |-> Box(k, <<>>), p |-> Box(k, <<>>), n |-> 0, w |-> 0]
Grow == /\ st.phase = "truth" /\ Len(st.g.s) < MaxLen
        /\ \E e \in Pool : LET g == Box(st.g.k, Append(st.g.s, e)) IN Fine(g) /\ st' = [st EXCEPT !.g = g, !.p = g]
Ready == /\ st.phase = "truth" /\ Len(st.g.s) >= 2 /\ \E w \in 0..(Writes - 1) : st' = [st EXCEPT !.phase = "edit", !.w = w]
Edit == /\ st.phase = "edit" /\ st.n < MaxEdits
        /\ \E p \in Edits(st.p) : Fine(p) /\ Len(p.s) >= 2 /\ Len(p.s) <= MaxLen + 1 /\ st' = [st EXCEPT !.p = p, !.n = st.n + 1]
Lone == /\ st.phase = "edit" /\ st.n < MaxEdits
        /\ \E p \in {st.g.s[1], Num(10000, "")} : p.k = "num" /\ st' = [st EXCEPT !.p = p, !.n = st.n + 1, !.phase = "done"]
Done == st.phase = "edit" /\ Finish /\ st.n >= 1 /\ st' = [st EXCEPT !.phase = "done"]
Next == Grow \/ Ready \/ Edit \/ Lone \/ Done

(* ------------------------------- properties ------------------------------- *)
Reflexive == Eq(st.g, st.g)
OrderFree == st.g.k = "set" /\ Len(st.g.s) >= 2 => \A i, j \in 1..Len(st.g.s) : Eq(st.g, Box("set", Swap(st.g.s, i, j)))
TypesOnlyWiden == st.phase # "truth" => \A t \in {{"Set"}, {"Vector"}, {"Set", "Vector"}} : Eq(st.g, st.p) => TypeEq(t, st.g, st.p)
BothIsUnion == st.phase # "truth" => TypeEq({"Set", "Vector"}, st.g, st.p) = (TypeEq({"Set"}, st.g, st.p) \/ TypeEq({"Vector"}, st.g, st.p))

Judged == IF Finish THEN st.phase = "done" ELSE st.phase \in {"edit", "done"}
W2 == st.w + 3 * st.n + Len(st.p.s) + (IF st.p.k = "set" THEN Abs(st.p.s[1].v) \div 10000 ELSE 0)
Emit == Judged =>
    IF Types = <<>>
    THEN Out([op |-> "eq", a |-> Text(st.g, st.w), b |-> Text(st.p, W2), exp |-> Eq(st.g, st.p), why |-> st.g.k \o "~" \o st.p.k])
    ELSE \A i \in 1..Len(Types) :
         \* sets are specified for pairwise distinct elements only
         ("Set" \in Kinds(Types[i]) => Distinct(st.g.s) /\ Distinct(st.p.s)) =>
         Out([op |-> "type", a |-> Text(st.g, st.w), b |-> Text(st.p, W2), t |-> Types[i], exp |-> TypeEq(Kinds(Types[i]), st.g, st.p),
              why |-> Types[i] \o ": " \o st.g.k \o "~" \o st.p.k \o (IF Eq(st.g, st.p) THEN " equal anyway" ELSE "")])
=============================================================================
