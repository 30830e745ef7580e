----------------------------- MODULE Malformed -----------------------------
(* C23.  A recogniser of the parser's language on tokens, reading one token a   *)
(* step, in every way the text may be read (a set of configurations).  It takes *)
(* a little more than the language, so what it refuses is malformed whichever   *)
(* way it is read: an operand or a delimiter is missing, mismatched or left     *)
(* over.  "all": every token sequence; "corrupt": well-formed texts grown at    *)
(* random, with one corruption.                                                 *)
EXTENDS Base
CONSTANTS Mode, Alphabet, MaxLen, MaxOps
VARIABLES st

Letters == {"x", "y", "k", "\\alpha ", "\\pi ", "dt"}
Digits == {"2", "7"}
Funcs == {"\\sin ", "\\ln ", "\\log ", "\\int "}
Multi == {"\\max ", "\\gcd "}
MulOps == {"*", "\\cdot ", "/", "\\times "}
RelOps == {"=", "<", "\\leq "}
Closer == [o \in {"(", "(,", "[", "[,", "{", "\\{", "\\left(", "\\left(,", "\\left[", "\\left\\{", "\\lfloor ", "\\lceil ", "\\left|", "\\lvert ", "\\|", "\\begin{pmatrix}", "\\begin{vmatrix}", "\\begin{bmatrix}", "|"} |->
            CASE o \in {"(", "(,"} -> ")" [] o \in {"[", "[,"} -> "]" [] o = "{" -> "}" [] o = "\\{" -> "\\}" [] o \in {"\\left(", "\\left(,"} -> "\\right)" [] o = "\\left[" -> "\\right]" [] o = "\\left\\{" -> "\\right\\}"
              [] o = "\\lfloor " -> "\\rfloor " [] o = "\\lceil " -> "\\rceil " [] o = "\\left|" -> "\\right|" [] o = "\\lvert " -> "\\rvert " [] o = "\\|" -> "\\|" [] o = "|" -> "|"
              [] o = "\\begin{pmatrix}" -> "\\end{pmatrix}" [] o = "\\begin{bmatrix}" -> "\\end{bmatrix}" [] OTHER -> "\\end{vmatrix}"]
Openers == {"(", "[", "{", "\\{", "\\left(", "\\left[", "\\left\\{", "\\lfloor ", "\\lceil ", "\\left|", "\\lvert ", "\\begin{pmatrix}", "\\begin{vmatrix}", "\\begin{bmatrix}"}
\* braces opened where a command wants them: what is expected once they close
After == [frac1 |-> "frac2", frac2 |-> "A", root |-> "sqrt2", rad |-> "A", sup |-> "A", sub |-> "AL", fsup |-> "fn", low |-> "no", lowR |-> "sumup", up |-> "E", up1 |-> "sumlow2", low2 |-> "no", low2R |-> "E",
          at |-> "no", atR |-> "A", atx |-> "A", bin1 |-> "bin2", bin2 |-> "A", lim |-> "E", acc |-> "AL", accfn |-> "fn", accE |-> "E"]
Special == DOMAIN After

C(m, s) == [m |-> m, s |-> s]
Top(c) == IF c.s = <<>> THEN "" ELSE Last(c.s)
Pop(c) == SubSeq(c.s, 1, Len(c.s) - 1)
Push(c, f, m) == C(m, Append(c.s, f))
Opened == {"A", "AL", "AD"}            \* an operand has been read (AL: a letter, AD: digits)
Wants == {"E", "fn", "fnm", "E,", "Erow"}   \* an operand must come

\* reading the start of an operand
Operand(c, t) ==
  CASE t \in Letters -> {C("AL", c.s)}
    [] t \in Digits -> {C("AD", c.s)}
    [] t = "." -> {C("dot", c.s)}
    [] t \in Funcs -> {C("fn", c.s)}
    [] t \in Multi -> {C("fnm", c.s)}
    [] t = "\\frac" -> {C("frac1", c.s)}
    [] t = "\\binom" -> {C("bin1", c.s)}
    [] t = "\\sqrt" -> {C("sqrt", c.s)}
    [] t = "\\bar" -> {C("accent", c.s)}
    [] t \in {"\\sum ", "\\prod "} -> {C("sum", c.s)}
    [] t = "\\lim " -> {C("lim0", c.s)}
    [] t = "|" \/ t = "\\|" -> {Push(c, t, "E")}
    [] t \in Openers -> {Push(c, t, "E")}
    [] OTHER -> {}
\* an argument list opens after a letter or a function of several arguments
Args(c, t) == CASE t = "(" -> {Push(c, "(,", "E")} [] t = "[" -> {Push(c, "[,", "E")} [] t = "\\left(" -> {Push(c, "\\left(,", "E")} [] OTHER -> {}
\* a braced or single argument of a command: which frame the brace opens
Braced(c, t, frame) == IF t = "{" THEN {Push(c, frame, "E")} ELSE {}
\* a fraction or an accent may also stand there; what follows it is then read as after any operand
Single(c, t, m) == IF t \in Digits THEN {C(m, c.s), C(IF m = "AL" THEN "AD" ELSE "%" \o m, c.s)} ELSE IF t \in Letters THEN {C(m, c.s)} ELSE IF t \in {"\\frac", "\\bar"} THEN Operand(c, t) \cup {C(m \o t, c.s)} ELSE IF t = "." THEN {C("dot", c.s)} ELSE {}
\* closing: the frame on top wants this token
Close(c, t) == LET f == Top(c) IN
  IF f = "" THEN {}
  ELSE IF f \in Special THEN (IF t = (IF f = "root" THEN "]" ELSE "}") /\ After[f] # "no" THEN {C(After[f], Pop(c))} ELSE {})
  ELSE IF t = Closer[f] THEN {C("A", Pop(c))} ELSE {}
\* after an operand
Further(c, t) ==
  (IF t \in {"+", "-"} \cup MulOps THEN {C("E", c.s)} ELSE {})
  \cup (IF t = "^" THEN {C("sup", c.s)} ELSE {})
  \cup (IF t = "_" THEN {C("sub", c.s)} ELSE {})
  \cup (IF t = "!" THEN {C("A", c.s)} ELSE {})
  \cup (IF t = "\\%" /\ c.m = "AD" THEN {C("A", c.s)} ELSE {})
  \cup (IF t = "|" THEN {C("bar", c.s)} ELSE {})
  \cup Close(c, t)
  \cup (IF t \in RelOps /\ (c.s = <<>> \/ (Len(c.s) = 1 /\ Top(c) \in {"[", "{", "\\{", "\\left[", "\\left\\{"})) THEN {C("E", c.s)} ELSE {})
  \cup (IF t = "=" THEN {C("eqeq", c.s)} ELSE {})      \* == is a relation too
  \cup (IF t = "=" /\ Top(c) \in {"low", "low2", "at"} THEN {C("eqeq", Append(Pop(c), Top(c) \o "R")), C("E", Append(Pop(c), Top(c) \o "R"))} ELSE {})
  \cup (IF t \in {",", ";"} /\ (c.s = <<>> \/ (Len(c.s) = 1 /\ Top(c) \in {"[", "{", "\\{", "\\left[", "\\left\\{"})) THEN {C("E", c.s)} ELSE {})
  \cup (IF t = "," /\ Top(c) \in {"(,", "[,", "\\left(,", "sub"} THEN {C("E,", c.s)} ELSE {})
  \cup (IF t = "&" /\ Top(c) \in {"\\begin{pmatrix}", "\\begin{vmatrix}", "\\begin{bmatrix}"} THEN {C("E", c.s)} ELSE {})
  \cup (IF t = "\\\\" /\ Top(c) \in {"\\begin{pmatrix}", "\\begin{vmatrix}", "\\begin{bmatrix}"} THEN {C("Erow", c.s)} ELSE {})
  \cup (IF t = ")" /\ c.s = <<>> THEN {C("Z", c.s)} ELSE {})
  \cup (IF c.m = "AL" THEN Args(c, t) ELSE {})
  \cup Operand(c, t)
Step(c, t) ==
  CASE c.m \in Opened -> Further(c, t)
    [] c.m \in Wants -> (IF t \in {"+", "-"} THEN {C("E", c.s)} ELSE {}) \cup Operand(c, t)
                        \cup (IF c.m \in {"fn", "fnm"} /\ t \in {"^", "_"} THEN {C(IF c.m = "fn" THEN "fnscript" ELSE "fnscript", c.s)} ELSE {})
                        \cup (IF c.m = "fnm" THEN Args(c, t) ELSE {})
                        \cup (IF c.m \in {"E,", "Erow"} THEN Close(c, t) ELSE {})
    [] c.m = "eqeq" -> (IF t = "=" THEN {C("E", c.s)} ELSE {})
    [] c.m = "dot" -> (IF t \in Digits THEN {C("AD", c.s)} ELSE {})
    [] c.m = "sup" -> Braced(c, t, "sup") \cup Operand(c, t) \cup (IF t \in {"+", "-"} THEN {C("sup", c.s)} ELSE {})
    [] c.m = "sub" -> Braced(c, t, "sub") \cup Single(c, t, "AL")
    [] c.m = "fnscript" -> Braced(c, t, "fsup") \cup Single(c, t, "fn")
    [] c.m = "frac1" -> Braced(c, t, "frac1") \cup (IF t \in Digits THEN {C("frac2", c.s)} ELSE {})
    [] c.m = "frac2" -> Braced(c, t, "frac2") \cup (IF t \in Digits THEN {C("A", c.s)} ELSE {})
    [] c.m = "bin1" -> Braced(c, t, "bin1")
    [] c.m = "bin2" -> Braced(c, t, "bin2")
    [] c.m \in {"fn\\bar", "E\\bar"} -> (IF t = "{" THEN {Push(c, IF c.m = "fn\\bar" THEN "accfn" ELSE "accE", "E")} ELSE {})
    [] c.m \in {"%E", "%fn", "%A", "%sumlow2"} -> (IF t = "\\%" THEN {C(SubSeq(c.m, 2, Len(c.m)), c.s)} ELSE {})
    [] c.m = "accent" -> Braced(c, t, "acc")
    [] c.m = "sqrt" -> Braced(c, t, "rad") \cup (IF t \in Digits THEN {C("A", c.s)} ELSE {}) \cup (IF t = "[" THEN {Push(c, "root", "E")} ELSE {})
    [] c.m = "sqrt2" -> Braced(c, t, "rad") \cup (IF t \in Digits THEN {C("A", c.s)} ELSE {})
    [] c.m = "sum" -> (IF t = "_" THEN {C("sumlow", c.s)} ELSE IF t = "^" THEN {C("sumup1", c.s)} ELSE {})
    [] c.m = "sumlow" -> Braced(c, t, "low")
    [] c.m = "sumup" -> (IF t = "^" THEN {C("sumup0", c.s)} ELSE {})
    [] c.m = "sumup0" -> Braced(c, t, "up") \cup Single(c, t, "E")
    [] c.m = "sumup1" -> Braced(c, t, "up1") \cup Single(c, t, "sumlow2")
    [] c.m = "sumlow2" -> (IF t = "_" THEN {C("sumlow3", c.s)} ELSE {})
    [] c.m = "sumlow3" -> Braced(c, t, "low2")
    [] c.m = "lim0" -> (IF t = "_" THEN {C("lim1", c.s)} ELSE {})
    [] c.m = "lim1" -> (IF t = "{" THEN {C("lim2", c.s)} ELSE {})
    [] c.m = "lim2" -> (IF t \in Letters THEN {C("lim3", c.s)} ELSE {})
    [] c.m = "lim3" -> (IF t = "\\to " THEN {Push(c, "lim", "E")} ELSE {})
    [] c.m = "bar" -> (IF t = "_" \/ t = "^" THEN {C("barsub", c.s)} ELSE {})
    [] c.m = "barsub" -> Braced(c, t, "at") \cup Braced(c, t, "atx") \cup Single(c, t, "A")
    [] c.m = "Z" -> (IF t = ")" THEN {c} ELSE {})
    [] OTHER -> {}
Accepting(cs) == \E c \in cs : c.s = <<>> /\ c.m \in Opened \cup {"Z"}
Start == {C("E", <<>>)}
Texts(w) == {Cat(w), Join(w, " ")}

(* --------------------------- every token sequence --------------------------- *)
AllInit == st = [phase |-> "all", w |-> <<>>, cs |-> Start]
Grow == st.phase = "all" /\ Len(st.w) < MaxLen /\ \E t \in Alphabet : st' = [st EXCEPT !.w = Append(@, t), !.cs = UNION {Step(c, t) : c \in @}]

(* ----------------------- well-formed texts, corrupted ----------------------- *)
Leaf(r) == <<<<"x">>, <<"y">>, <<"2">>, <<"k">>, <<"\\alpha ">>, <<"7">>, <<"2", "\\%">>, <<"2", ".", "7">>, <<"x", "_", "{", "2", "7", "}">>, <<"\\pi ">>, <<"\\bar", "{", "x", "}">>, <<".", "2">>>>[r]
U(o, e, c) == o \o e \o c
Un(r, e) == CASE r = 1 -> U(<<"(">>, e, <<")">>) [] r = 2 -> U(<<"\\left(">>, e, <<"\\right)">>) [] r = 3 -> U(<<"[">>, e, <<"]">>) [] r = 4 -> U(<<"|">>, e, <<"|">>) [] r = 5 -> U(<<"\\left|">>, e, <<"\\right|">>)
              [] r = 6 -> U(<<"\\lfloor ">>, e, <<"\\rfloor ">>) [] r = 7 -> U(<<"\\lceil ">>, e, <<"\\rceil ">>) [] r = 8 -> U(<<"\\sqrt", "{">>, e, <<"}">>) [] r = 9 -> U(<<"\\sqrt", "[", "7", "]", "{">>, e, <<"}">>)
              [] r = 10 -> U(<<"\\sin ", "(">>, e, <<")">>) [] r = 11 -> U(<<"\\sin ", "^", "{", "2", "}", "\\left(">>, e, <<"\\right)">>) [] r = 12 -> U(<<"\\log ", "_", "{">>, e, <<"}", "(", "x", ")">>) [] r = 13 -> U(<<"(">>, e, <<")", "!">>)
              [] r = 14 -> U(<<"(">>, e, <<")", "^", "2">>) [] r = 15 -> U(<<"x", "^", "{">>, e, <<"}">>) [] r = 16 -> U(<<"\\int ", "_", "{", "2", "}", "^", "{">>, e, <<"}", "x", "dt">>)
              [] r = 17 -> U(<<"\\int ", "(">>, e, <<")", "dt">>) [] r = 18 -> U(<<"\\sum ", "_", "{", "k", "=", "2", "}", "^", "{", "7", "}", "(">>, e, <<")">>) [] r = 19 -> U(<<"\\prod ", "_", "{", "k", "=">>, e, <<"}", "^", "7", "k">>)
              [] r = 20 -> U(<<"\\lim ", "_", "{", "x", "\\to ">>, e, <<"}", "x">>) [] r = 21 -> U(<<"(">>, e, <<")", "|", "_", "{", "x", "=", "2", "}">>) [] r = 22 -> U(<<"\\lvert ">>, e, <<"\\rvert ">>)
              [] r = 23 -> U(<<"{">>, e, <<"}">>) [] r = 24 -> U(<<"\\left[">>, e, <<"\\right]">>) [] r = 25 -> U(<<"\\ln ">>, e, <<>>) [] OTHER -> U(<<"-">>, e, <<>>)
NUn == 26
Bin(r, a, b) == CASE r = 1 -> a \o <<"+">> \o b [] r = 2 -> a \o <<"-">> \o b [] r = 3 -> a \o <<"\\cdot ">> \o b [] r = 4 -> a \o <<"/">> \o b [] r = 5 -> <<"\\frac", "{">> \o a \o <<"}", "{">> \o b \o <<"}">>
                  [] r = 6 -> <<"\\binom", "{">> \o a \o <<"}", "{">> \o b \o <<"}">> [] r = 7 -> <<"\\max ", "(">> \o a \o <<",">> \o b \o <<")">> [] r = 8 -> <<"\\begin{pmatrix}">> \o a \o <<"&">> \o b \o <<"\\\\", "x", "&", "2", "\\end{pmatrix}">>
                  [] r = 9 -> <<"\\begin{vmatrix}", "2", "&">> \o a \o <<"\\\\", "y", "&">> \o b \o <<"\\end{vmatrix}">> [] r = 10 -> <<"(">> \o a \o <<")", "(">> \o b \o <<")">> [] r = 11 -> <<"\\gcd ", "\\left(">> \o a \o <<",">> \o b \o <<"\\right)">>
                  [] OTHER -> <<"\\sqrt", "[">> \o a \o <<"]", "{">> \o b \o <<"}">>
NBin == 12
Whole(r, a, b) == CASE r = 1 -> a \o <<"=">> \o b [] r = 2 -> a \o <<"<">> \o b [] r = 3 -> a \o <<",">> \o b [] r = 4 -> <<"\\{">> \o a \o <<",">> \o b \o <<"\\}">> [] r = 5 -> <<"\\left[">> \o a \o <<";">> \o b \o <<"\\right]">>
                    [] r = 6 -> <<"[">> \o a \o <<",">> \o b \o <<",", "x", "]">> [] OTHER -> a \o <<"\\leq ">> \o b
NWhole == 7
R(n) == RandomElement(1..n)
CorInit == st = [phase |-> "grow", stack |-> <<>>, ops |-> 0, w |-> <<>>, at |-> 0, cs |-> Start, orig |-> <<>>, kind |-> ""]
Room == st.phase = "grow" /\ st.ops < MaxOps
PushLeaf == Room /\ Len(st.stack) < 2 /\ \E r \in {R(12)} : st' = [st EXCEPT !.stack = Append(@, Leaf(r)), !.ops = @ + 1]
Wrap == Room /\ Len(st.stack) > 0 /\ Len(Last(st.stack)) < 14 /\ \E r \in {R(NUn)} : st' = [st EXCEPT !.stack = Append(SubSeq(@, 1, Len(@) - 1), Un(r, Last(@))), !.ops = @ + 1]
Two == st.phase = "grow" /\ Len(st.stack) = 2 /\ Len(st.stack[1]) + Len(st.stack[2]) < 20 /\ \E r \in {R(NBin)} : st' = [st EXCEPT !.stack = <<Bin(r, @[1], @[2])>>, !.ops = @ + 1]
Finish == st.phase = "grow" /\ st.ops >= 2 /\
          \/ /\ Len(st.stack) = 1
             /\ st' = [st EXCEPT !.phase = "whole", !.w = st.stack[1]]
          \/ /\ Len(st.stack) = 2
             /\ \E r \in {R(NWhole)} : st' = [st EXCEPT !.phase = "whole", !.w = Whole(r, st.stack[1], st.stack[2])]
Cut(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Ins(w, i, t) == SubSeq(w, 1, i) \o <<t>> \o SubSeq(w, i + 1, Len(w))
Stray == <<"(", ")", "{", "}", "[", "]", "\\left(", "\\right)", "\\right]", "|", "\\rfloor ", "\\end{pmatrix}", "\\end{bmatrix}", "+", "\\cdot ", "^", "_", ",", "=", "&", "\\\\", "\\frac", "\\sqrt", "\\sin ", "!", "x", "2", "\\to ", "\\%", ".", "dt", "\\}", "\\rceil ", "*", "/", ";">>
Go(w, kind) == [phase |-> "read", w |-> w, kind |-> kind, at |-> 0, cs |-> Start, orig |-> st.w, stack |-> <<>>, ops |-> st.ops]
Keep == st.phase = "whole" /\ st' = Go(st.w, "none")
Delete == st.phase = "whole" /\ \E i \in 1..Len(st.w) : st' = Go(Cut(st.w, i), "delete")
Insert == st.phase = "whole" /\ \E i \in 0..Len(st.w) : \E r \in {R(Len(Stray))} : st' = Go(Ins(st.w, i, Stray[r]), "insert")
Append1 == st.phase = "whole" /\ \E r \in 1..Len(Stray) : st' = Go(Append(st.w, Stray[r]), "append")
Replace == st.phase = "whole" /\ \E i \in 1..Len(st.w) : \E r \in {R(Len(Stray))} : st' = Go([st.w EXCEPT ![i] = Stray[r]], "replace")
Swap == st.phase = "whole" /\ \E i \in 1..(Len(st.w) - 1) : st' = Go([st.w EXCEPT ![i] = st.w[i + 1], ![i + 1] = st.w[i]], "swap")
Prefix == st.phase = "whole" /\ \E i \in 1..Len(st.w) : st' = Go(SubSeq(st.w, 1, i), "prefix")
Suffix == st.phase = "whole" /\ \E i \in 2..Len(st.w) : st' = Go(SubSeq(st.w, i, Len(st.w)), "suffix")
Advance == st.phase = "read" /\ st.at < Len(st.w) /\ st.cs # {} /\ st' = [st EXCEPT !.at = @ + 1, !.cs = UNION {Step(c, st.w[st.at + 1]) : c \in @}]
Done == st.phase = "read" /\ (st.at = Len(st.w) \/ st.cs = {}) /\ st' = [st EXCEPT !.phase = "done"]

Init == IF Mode = "all" THEN AllInit ELSE CorInit
Next == Grow \/ PushLeaf \/ Wrap \/ Two \/ Finish \/ Keep \/ Delete \/ Insert \/ Append1 \/ Replace \/ Swap \/ Prefix \/ Suffix \/ Advance \/ Done

(* ------------------------------- properties ------------------------------- *)
\* the recogniser takes every text that was grown
GrownTaken == st.phase = "done" /\ st.kind = "none" => Accepting(st.cs)
\* brackets of different kinds never close each other: an accepted text has as many openers as closers of each kind, but for ")" at the end
Count(w, t) == Cardinality({i \in DOMAIN w : w[i] = t})
Balanced == (st.phase = "all" \/ st.phase = "done") /\ Accepting(st.cs) =>
            /\ Count(st.w, "{") = Count(st.w, "}") /\ Count(st.w, "[") = Count(st.w, "]") /\ Count(st.w, "\\left(") = Count(st.w, "\\right)") /\ Count(st.w, "(") <= Count(st.w, ")") /\ Count(st.w, "\\lfloor ") = Count(st.w, "\\rfloor ")
Emit == CASE st.phase = "all" /\ st.w # <<>> -> Out([op |-> IF Accepting(st.cs) THEN "taken" ELSE "refuse", why |-> "all", a |-> Cat(st.w), b |-> Join(st.w, " ")])
          [] st.phase = "done" -> Out([op |-> IF st.at = Len(st.w) /\ Accepting(st.cs) THEN "taken" ELSE "refuse", why |-> st.kind, a |-> Cat(st.w), b |-> Join(st.w, " ")])
          [] OTHER -> TRUE
=============================================================================
