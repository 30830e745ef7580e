------------------------------- MODULE Strings -------------------------------
(* C13.  Any two texts.  An answer is a sequence of tokens of the notation     *)
(* (and of things that are not), reached from well-formed answers by editing.  *)
EXTENDS Base
CONSTANTS Tokens,      \* sequence of texts
          Answers,     \* sequence of well-formed answers, each a sequence of texts
          Types,       \* sequence of type texts
          MaxEdits, Length, Whole
VARIABLES st

Blank == {"", " ", "\t", "\n", "  "}
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ Head(s) \in Blank THEN LStrip(Tail(s)) ELSE s
Strip(s) == Rev(LStrip(Rev(LStrip(s))))
None == <<"<none>">>
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, t) == SubSeq(s, 1, i) \o <<t>> \o SubSeq(s, i + 1, Len(s))
Replace(s, i, t) == [s EXCEPT ![i] = t]
Swapped(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]

Init == st = [phase |-> "start", a |-> <<>>, b |-> <<>>, k |-> 0, n |-> 0, y |-> 1]
Start == st.phase = "start" /\ \/ \E i \in 1..Len(Answers) : st' = [st EXCEPT !.phase = "edit", !.a = Answers[i], !.b = Answers[i]]
                               \/ st' = [st EXCEPT !.phase = "edit"]
\* an edit: choose a token, then a place
Pick == st.phase = "edit" /\ st.n < MaxEdits /\ st.k = 0 /\ \E k \in 1..Len(Tokens) : st' = [st EXCEPT !.k = k]
Place == st.phase = "edit" /\ st.k # 0 /\ Len(st.b) < Length /\
    (\/ \E i \in 0..Len(st.b) : st' = [st EXCEPT !.b = Insert(@, i, Tokens[st.k]), !.k = 0, !.n = @ + 1]
     \/ \E i \in 1..Len(st.b) : st' = [st EXCEPT !.b = Replace(@, i, Tokens[st.k]), !.k = 0, !.n = @ + 1])
Cut == st.phase = "edit" /\ st.k = 0 /\ st.n < MaxEdits /\
    (\/ \E i \in 1..Len(st.b) : st' = [st EXCEPT !.b = Remove(@, i), !.n = @ + 1]
     \/ \E i \in 1..(Len(st.b) - 1) : st' = [st EXCEPT !.b = Swapped(@, i), !.n = @ + 1]
     \/ \E i \in 1..(Len(st.b) - 1) : st' = [st EXCEPT !.b = SubSeq(@, 1, i), !.n = @ + 1]
     \/ Len(st.b) < Length \div 2 /\ st' = [st EXCEPT !.b = @ \o @, !.n = @ + 1])
\* the ground truth: the unedited answer, the edited text itself, blank, missing, or what both began from
Judge == st.phase = "edit" /\ st.k = 0 /\ (Whole \/ st.n > 0) /\ \E y \in {IF Whole THEN RandomElement(1..Len(Types)) ELSE ((Len(st.b) + st.n) % Len(Types)) + 1} :
    \/ st' = [st EXCEPT !.phase = "done", !.y = y]
    \/ st' = [st EXCEPT !.phase = "done", !.y = y, !.a = <<" ">> \o @ \o <<"\n">>, !.b = st.a \o <<" ">>]
    \/ st' = [st EXCEPT !.phase = "done", !.y = y, !.a = st.b, !.b = st.a]
    \/ st' = [st EXCEPT !.phase = "done", !.y = y, !.a = <<"\t">> \o st.b, !.b = @ \o <<" ">>]
    \/ st' = [st EXCEPT !.phase = "done", !.y = y, !.a = st.b, !.b = <<" ">>]
    \/ st' = [st EXCEPT !.phase = "done", !.y = y, !.a = <<>>]
    \/ st' = [st EXCEPT !.phase = "done", !.y = y, !.a = None]
    \/ st' = [st EXCEPT !.phase = "done", !.y = y, !.a = st.b, !.b = None]
    \/ st' = [st EXCEPT !.phase = "done", !.y = y, !.a = None, !.b = None]
Next == Start \/ Pick \/ Place \/ Cut \/ Judge

Verdict(a, b) == IF a = None /\ b = None THEN "true"
                 ELSE IF a = None \/ b = None THEN "false"
                 ELSE IF Strip(a) = Strip(b) THEN "true"
                 ELSE IF Strip(b) = <<>> THEN "false" ELSE "bool"
\* texts, not tokens, decide whether two answers are the same
TextVerdict(a, b) == IF Verdict(a, b) = "bool" /\ Cat(Strip(a)) = Cat(Strip(b)) THEN "true" ELSE Verdict(a, b)
Reflexive == Verdict(st.b, st.b) = "true"
BlankIsNothing == Strip(st.b) # <<>> => Verdict(st.b, <<>>) = "false" \/ st.b = None
Emit == st.phase = "done" => Out([op |-> "total", a |-> Cat(st.a), b |-> Cat(st.b), t |-> Types[st.y], exp |-> TextVerdict(st.a, st.b), why |-> S(st.n) \o " edits: " \o TextVerdict(st.a, st.b)])
=============================================================================
