-------------------------------- MODULE Styles --------------------------------
(* C28.  The fraction style: parsing a text that contains a fraction command  *)
(* sets it, every other operation leaves it, and what is printed afterwards   *)
(* is written in it.                                                          *)
EXTENDS Base
CONSTANTS MaxSteps
VARIABLES style, hist

Cmds == {"frac", "dfrac", "tfrac"}
Frac(c, a, b) == "\\" \o c \o "{" \o a \o "}{" \o b \o "}"
\* texts and the style they set ("" leaves it)
Sources == UNION {{[t |-> Frac(c, "1", "2"), s |-> c], [t |-> "x+" \o Frac(c, "y", "3"), s |-> c], [t |-> Frac(c, "x", Frac(c, "1", "y")), s |-> c], [t |-> "\\begin{bmatrix} " \o Frac(c, "1", "2") \o " & 1 \\end{bmatrix}", s |-> c], [t |-> "\\sqrt{" \o Frac(c, "x", "4") \o "}", s |-> c]} : c \in Cmds}
           \cup {[t |-> "x/2", s |-> ""], [t |-> "2x+1", s |-> ""], [t |-> "\\sqrt{3}", s |-> ""], [t |-> "x^{-1}", s |-> ""]}
Prints == {"x/2", "(x+1)/y", "-x/3+y", "[x/2, y/3]", "[[x/2, 1], [y, x/y]]", "x<y/2"}
Init == style = "frac" /\ hist = <<>>
Step(o, a, s) == style' = s /\ hist' = Append(hist, [o |-> o, a |-> a, s |-> s])
Few == Len(hist) < MaxSteps
Parse == Few /\ \E x \in Sources : Step("parse", x.t, IF x.s = "" THEN style ELSE x.s)
Write == Few /\ \E p \in Prints : Step("print", p, style)
Both == Few /\ \E x \in Sources : Step("both", x.t, IF x.s = "" THEN style ELSE x.s)
Next == Parse \/ Write \/ Both

\* the style is that of the last text read that had one
LastSet == LET I == {i \in 1..Len(hist) : hist[i].o # "print" /\ \E x \in Sources : x.t = hist[i].a /\ x.s # ""} IN
           IF I = {} THEN style = "frac" ELSE LET k == CHOOSE i \in I : \A j \in I : j <= i IN \E x \in Sources : x.t = hist[k].a /\ x.s = style
Emit == Len(hist) = MaxSteps => Out([op |-> "style", h |-> hist, why |-> hist[Len(hist)].o])
=============================================================================
