------------------------------- MODULE Units -------------------------------
(* C03.  A number acquires decorations one after another, each of which must *)
(* leave its meaning alone; what is not a decoration must not be taken off.  *)
EXTENDS Base
CONSTANTS Numbers,      \* [t |-> text, wrong |-> set of texts of other numbers]
          LongUnits, ShortUnits, LetterUnits, MaxDeco, UnitNumbers, Powers, Plurals, Pads, Finish

VARIABLES st
\* stages a decoration may be put on at: sizing, unit, currency, membership, blanks, box
Start(n, u) == [n |-> n, t |-> n.t, stage |-> 0, depth |-> 0, boxed |-> FALSE, unit |-> u, okay |-> TRUE, other |-> "", sp |-> FALSE]
Init == \E n \in Numbers : st = Start(n, FALSE)

Put(t, s) == [st EXCEPT !.t = t, !.stage = s, !.depth = @ + 1]
More(s) == st.okay /\ st.stage < s /\ st.depth < MaxDeco

Sizing == More(1) /\ \E d \in {<<"\\left(", "\\right)">>, <<"\\left[", "\\right]">>, <<"(", ")">>} : st' = Put(d[1] \o st.t \o d[2], 1)

UnitSeq == LongUnits \cup ShortUnits \cup LetterUnits
BareLong == \E u \in LongUnits, pl \in Plurals, pw \in Powers, b \in {"", " ", "  "} :
    /\ st' = [Put(st.t \o b \o u \o pl \o pw, 2) EXCEPT !.unit = TRUE]
BareShort == \E u \in ShortUnits, pl \in Plurals, pw \in Powers, b \in {" ", "  "} :
    st' = [Put(st.t \o b \o u \o pl \o pw, 2) EXCEPT !.unit = TRUE]
InText == \E u \in UnitSeq, pl \in Plurals, pw \in Powers, cmd \in {"\\text", "\\mbox"}, b \in {"", " "}, inside \in BOOLEAN, pad \in Pads :
    /\ inside => pw # ""
    /\ st' = [Put(st.t \o b \o cmd \o "{" \o pad \o u \o pl \o (IF inside THEN pw \o "}" ELSE "}" \o pw), 2) EXCEPT !.unit = TRUE, !.boxed = TRUE]
\* every unit on the plain number; combinations of decorations with a few units
Unit == /\ More(2) /\ (st.depth = 0 \/ MaxDeco > 1) /\ st.n.t \in UnitNumbers
        /\ (BareLong \/ BareShort \/ InText)
Currency == More(3) /\ \E d \in {<<"$", "">>, <<"\\$", "">>, <<"$", "$">>, <<"\\$ ", "">>, <<"", "\\$">>, <<"", "$">>} : st' = Put(d[1] \o st.t \o d[2], 3)
Member == More(4) /\ \E d \in {"x \\in ", "x\\in ", "y  \\in ", "X \\in"} : st' = Put(d \o st.t, 4)
Blanks == More(5) /\ \E d \in {<<" ", " ">>, <<"   ", "">>, <<"", "\\,">>, <<"\\!", "">>, <<"\\;", "\\:">>, <<"\\ ", "">>, <<"", "\\!\\!">>} :
             /\ d[1] # "\\ " /\ st' = Put(d[1] \o st.t \o d[2], 5)
Box == More(6) /\ ~st.boxed /\ \E d \in {<<"\\text{", "}">>, <<"\\mbox{", "}">>, <<"\\text{ ", " }">>, <<"\\text{  ", "}">>} : st' = [Put(d[1] \o st.t \o d[2], 6) EXCEPT !.boxed = TRUE]

(* not decorations: a short unit or a letter glued on, a letter after a space *)
\* with Finish a behaviour is reported once, when nothing more is put on
Done == Finish /\ st.okay /\ st.depth > 1 /\ st.stage < 8 /\ st' = [st EXCEPT !.stage = 8]

Glued == st.depth = 0 /\ st.n.t # "0" /\ \E u \in ShortUnits \cup LetterUnits, pw \in {"", "^2"} :
    st' = [Put(st.t \o u \o pw, 9) EXCEPT !.okay = FALSE]
Letter == st.depth = 0 /\ st.n.t # "0" /\ \E u \in LetterUnits : st' = [Put(st.t \o " " \o u, 9) EXCEPT !.okay = FALSE]

\* bare unit words
Word == st.depth = 0 /\ st.n = (CHOOSE n \in Numbers : TRUE)
        /\ \E u \in LongUnits \cup ShortUnits : st' = [st EXCEPT !.t = u, !.stage = 10, !.depth = 1, !.okay = FALSE]
TwoWords == st.stage = 10 /\ \E u \in LongUnits \cup ShortUnits : u # st.t /\ {u, st.t} # {"ml", "mL"} /\ st' = [st EXCEPT !.other = u, !.stage = 11]

Next == Sizing \/ Unit \/ Currency \/ Member \/ Blanks \/ Box \/ Glued \/ Letter \/ Done \/ Word \/ TwoWords

Wellformed == st.okay => (st.depth <= MaxDeco /\ (st.boxed \/ st.stage < 9))
Emit == /\ (st.okay /\ st.depth > 0 /\ (~Finish \/ st.stage = 8)) => Out([op |-> "deco", a |-> st.n.t, b |-> st.t, wrong |-> st.n.wrong, exp |-> TRUE])
        /\ (st.stage = 9) => Out([op |-> "eq", a |-> st.n.t, b |-> st.t, exp |-> FALSE, why |-> "glued"])
        /\ (st.stage = 9) => Out([op |-> "eq", a |-> st.t, b |-> st.n.t, exp |-> FALSE, why |-> "glued"])
        /\ (st.stage = 10) => Out([op |-> "eq", a |-> st.t, b |-> st.t, exp |-> TRUE, why |-> "word"])
        /\ (st.stage = 11) => Out([op |-> "eq", a |-> st.t, b |-> st.other, exp |-> FALSE, why |-> "words"])
=============================================================================
