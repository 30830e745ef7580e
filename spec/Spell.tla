-------------------------------- MODULE Spell --------------------------------
(* C17.  Abstract syntax trees and the ways each construct may be written.  A  *)
(* tree is built bottom-up on a stack; then it is written once in the first    *)
(* spelling of every construct and once in others: one construct's spelling    *)
(* changed, or one kind of blank put between all tokens, or everything mixed.  *)
EXTENDS Base
CONSTANTS LeafNames, Only, MaxOps, MaxLeaves, Exhaustive
VARIABLES st

At(s, i) == s[(i % Len(s)) + 1]
Pick(n) == {RandomElement(0..(n - 1))}

(* ------------------------------- spellings ------------------------------- *)
\* "#1", "#2" ... stand for the parts
Bracket(pairs) == [i \in 1..Len(pairs) |-> <<pairs[i][1], "#1", pairs[i][2]>>]
With(ls) == ls \o [i \in 1..Len(ls) |-> <<"\\left" \o ls[i][1], "\\right" \o ls[i][2]>>] \o [i \in 1..Len(ls) |-> <<"\\mleft" \o ls[i][1], "\\mright" \o ls[i][2]>>]
Round == <<<<"(", ")">>, <<"\\lgroup ", "\\rgroup ">>, <<"{", "}">>, <<"\\{", "\\}">>, <<"\\lbrace ", "\\rbrace ">>, <<"[", "]">>, <<"\\lbrack ", "\\rbrack ">>>>
Infix(ops) == [i \in 1..Len(ops) |-> <<"#1", ops[i], "#2">>]
Apply(fs) == [i \in 1..Len(fs) |-> <<fs[i], "(", "#1", ")">>] \o <<<<fs[1], "\\left(", "#1", "\\right)">>, <<fs[1], "\\mleft(", "#1", "\\mright)">>>>
Apply2(fs) == [i \in 1..Len(fs) |-> <<fs[i], "(", "#1", ",", "#2", ")">>] \o <<<<fs[1], "\\left(", "#1", ",", "#2", "\\right)">>, <<fs[1], "\\mleft(", "#1", ",", "#2", "\\mright)">>>>
Env(n, tail) == <<"\\begin{" \o n \o "}", "#1", "&", "#2", "\\\\", "#3", "&", "#4", tail \o "\\end{" \o n \o "}">>
Alts == [
  sum |-> Infix(<<"+">>), dif |-> Infix(<<"-">>), neg |-> <<<<"-", "#1">>>>, jux |-> <<<<"#1", "#2">>>>, fact |-> <<<<"#1", "!">>>>,
  mul |-> Infix(<<"*", "\\cdot ", "\\times ">>), div |-> Infix(<<"/", "\\div ", ":", "\\over ">>),
  group |-> Bracket(With(Round)),
  abs1 |-> Bracket(With(<<<<"\\lvert ", "\\rvert ">>, <<"|", "|">>, <<"\\vert ", "\\vert ">>>>)),
  abs |-> Bracket(<<<<"\\lvert ", "\\rvert ">>, <<"\\left|", "\\right|">>, <<"\\mleft|", "\\mright|">>, <<"\\left\\lvert ", "\\right\\rvert ">>, <<"\\left\\vert ", "\\right\\vert ">>>>),
  floor |-> Bracket(With(<<<<"\\lfloor ", "\\rfloor ">>, <<"\\llcorner ", "\\lrcorner ">>>>)) \o Apply(<<"\\floor", "\\operatorname{floor}">>),
  ceil |-> Bracket(With(<<<<"\\lceil ", "\\rceil ">>, <<"\\ulcorner ", "\\urcorner ">>>>)) \o Apply(<<"\\ceil", "\\operatorname{ceil}">>),
  frac |-> [i \in 1..3 |-> <<<<"\\frac", "\\dfrac", "\\tfrac">>[i], "{", "#1", "}", "{", "#2", "}">>],
  frac1 |-> [i \in 1..3 |-> <<<<"\\frac", "\\dfrac", "\\tfrac">>[i], "{", "#1", "}", "{", "#2", "}">>] \o [i \in 1..3 |-> <<<<"\\frac", "\\dfrac", "\\tfrac">>[i], " ", "#1", "#2">>]
            \o <<<<"\\frac", "{", "#1", "}", "#2">>, <<"\\frac", "#1", "{", "#2", "}">>, <<"\\tfrac", "#1", "#2">>>>,
  sqrt |-> <<<<"\\sqrt", "{", "#1", "}">>>>, sqrt1 |-> <<<<"\\sqrt", "{", "#1", "}">>, <<"\\sqrt", "#1">>, <<"\\sqrt ", "#1">>>>,
  root |-> <<<<"\\sqrt", "[", "#2", "]", "{", "#1", "}">>>>,
  pow |-> <<<<"#1", "^", "{", "#2", "}">>>>, pow1 |-> <<<<"#1", "^", "{", "#2", "}">>, <<"#1", "^", "#2">>>>,
  sub |-> <<<<"#1", "_", "{", "#2", "}">>, <<"#1", "_", "#2">>>>,
  subpow |-> <<<<"#1", "_", "{", "#2", "}", "^", "{", "#3", "}">>, <<"#1", "^", "{", "#3", "}", "_", "{", "#2", "}">>, <<"#1", "_", "#2", "^", "#3">>, <<"#1", "^", "#3", "_", "#2">>>>,
  binom |-> [i \in 1..3 |-> <<<<"\\binom", "\\tbinom", "\\dbinom">>[i], "{", "#1", "}", "{", "#2", "}">>] \o <<<<"{", "#1", "\\choose ", "#2", "}">>>>,
  asinh |-> Apply(<<"\\operatorname{arsinh}", "\\operatorname{arcsinh}", "\\arsinh ", "\\arcsinh ", "\\sinh^{-1}">>),
  acosh |-> Apply(<<"\\operatorname{arcosh}", "\\operatorname{arccosh}", "\\arcosh ", "\\arccosh ", "\\cosh^{-1}">>),
  atanh |-> Apply(<<"\\operatorname{artanh}", "\\operatorname{arctanh}", "\\artanh ", "\\arctanh ", "\\tanh^{-1}">>),
  asin |-> Apply(<<"\\arcsin ", "\\sin^{-1}">>), acos |-> Apply(<<"\\arccos ", "\\cos^{-1}">>), atan |-> Apply(<<"\\arctan ", "\\tan^{-1}">>),
  acot |-> Apply(<<"\\arccot ", "\\cot^{-1}">>), asec |-> Apply(<<"\\arcsec ", "\\sec^{-1}">>), acsc |-> Apply(<<"\\arccsc ", "\\csc^{-1}">>),
  sin |-> Apply(<<"\\sin ", "\\sin">>), cos2 |-> [i \in 1..2 |-> <<<<"\\cos^{2}", "\\cos^2">>[i], "(", "#1", ")">>],
  ln |-> Apply(<<"\\ln ", "\\ln_{e}", "\\log_{e}">>), lg |-> Apply(<<"\\log ", "\\log_{10}">>),
  log |-> <<<<"\\log", "_", "{", "#2", "}", "(", "#1", ")">>, <<"\\log", "_", "#2", "(", "#1", ")">>, <<"\\log", "_", "{", "#2", "}", "\\left(", "#1", "\\right)">>>>,
  exp |-> <<<<"e", "^", "{", "#1", "}">>, <<"\\exp", "(", "#1", ")">>, <<"\\exponentialE", "^", "{", "#1", "}">>>>,
  gcd |-> Apply2(<<"\\gcd", "\\operatorname{gcd}">>), lcm |-> Apply2(<<"\\lcm", "\\operatorname{lcm}">>), max |-> Apply2(<<"\\max">>), min |-> Apply2(<<"\\min">>),
  bar |-> [i \in 1..2 |-> <<<<"\\bar", "\\overline">>[i], "{", "#1", "}">>], vec |-> [i \in 1..2 |-> <<<<"\\vec", "\\overrightarrow">>[i], "{", "#1", "}">>],
  tilde |-> [i \in 1..2 |-> <<<<"\\tilde", "\\widetilde">>[i], "{", "#1", "}">>],
  int |-> <<<<"\\int", "_", "{", "#1", "}", "^", "{", "#2", "}", "#3", "d", "x">>, <<"\\int", "^", "{", "#2", "}", "_", "{", "#1", "}", "#3", "d", "x">>,
            <<"\\int", "_", "{", "#1", "}", "^", "{", "#2", "}", "#3", "\\mathrm{d}", "x">>, <<"\\int", "_", "{", "#1", "}", "^", "{", "#2", "}", "#3", "{\\rm d}", "x">>>>,
  int1 |-> <<<<"\\int", "_", "{", "#1", "}", "^", "{", "#2", "}", "#3", "d", "x">>, <<"\\int", "_", "#1", "^", "#2", " ", "#3", "d", "x">>, <<"\\int", "^", "#2", "_", "#1", " ", "#3", "\\mathrm{d}", "x">>>>,
  ddx |-> <<<<"\\frac", "{", "d", "}", "{", "d", "x", "}", "#1">>, <<"\\frac", "{", "\\mathrm{d}", "}", "{", "\\mathrm{d}", "x", "}", "#1">>, <<"\\dfrac", "{", "{\\rm d}", "}", "{", "{\\rm d}", "x", "}", "#1">>,
            <<"\\tfrac", "{", "d", "}", "{", "d", "x", "}", "#1">>>>,
  summ |-> <<<<"\\sum", "_", "{", "k", "=", "#1", "}", "^", "{", "#2", "}", "#3">>, <<"\\sum", "^", "{", "#2", "}", "_", "{", "k", "=", "#1", "}", "#3">>, <<"\\sum", "_", "{", "k", "==", "#1", "}", "^", "{", "#2", "}", "#3">>>>,
  prod |-> <<<<"\\prod", "_", "{", "k", "=", "#1", "}", "^", "{", "#2", "}", "#3">>, <<"\\prod", "^", "{", "#2", "}", "_", "{", "k", "=", "#1", "}", "#3">>>>,
  lim |-> [i \in 1..5 |-> <<"\\lim", "_", "{", "x", <<"\\to ", "\\rightarrow ", "\\Rightarrow ", "\\longrightarrow ", "\\Longrightarrow ">>[i], "#1", "}", "#2">>],
  mat |-> <<Env("matrix", ""), Env("pmatrix", ""), Env("bmatrix", ""), Env("bmatrix", "\\\\"), <<"\\left[\\begin{matrix}", "#1", "&", "#2", "\\\\", "#3", "&", "#4", "\\end{matrix}\\right]">>>>,
  tr |-> <<<<"#1", "^T">>, <<"#1", "^{T}">>, <<"#1", "^\\top ">>, <<"#1", "^{\\top}">>, <<"#1", "'">>, <<"#1", "^\\mathrm{T}">>, <<"#1", "^{\\mathrm{T}}">>>>,
  trace |-> Apply(<<"\\operatorname{trace}", "\\operatorname{tr}">>), norm |-> Apply(<<"\\operatorname{norm}">>) \o Bracket(With(<<<<"\\|", "\\|">>>>)),
  swap |-> [i \in 1..4 |-> <<"#1", "\\xrightarrow", "{", "r_1", <<"<->", "<=>", "\\leftrightarrow ", "\\Leftrightarrow ">>[i], "r_2", "}">>] \o <<<<"#1", "\\xRightarrow", "{", "r_1", "<->", "r_{2}", "}">>>>,
  eq |-> Infix(<<" = ", " == ", " \\equiv ">>), le |-> Infix(<<" \\leq ", " \\le ", " \\leqslant ">>), ge |-> Infix(<<" \\geq ", " \\ge ", " \\geqslant ">>),
  ne |-> Infix(<<" \\neq ", " \\ne ", " != ", " !== ", " \\not\\equiv ">>), lt |-> Infix(<<" < ">>), gt |-> Infix(<<" > ">>),
  list |-> <<<<"#1", ",", "#2">>, <<"[", "#1", ",", "#2", "]">>, <<"\\{", "#1", ",", "#2", "\\}">>, <<"\\left[", "#1", ",", "#2", "\\right]">>, <<"\\left\\{", "#1", ",", "#2", "\\right\\}">>, <<"\\mleft[", "#1", ",", "#2", "\\mright]">>,
             <<"\\mleft\\{", "#1", ",", "#2", "\\mright\\}">>, <<"{", "#1", ",", "#2", "}">>, <<"#1", ";", "#2">>, <<"[", "#1", ";", "#2", "]">>>>]
Gaps == <<"", " ", "\\quad ", "\\qquad ", "~", "\\,", "\\displaystyle ", "$", "\n", " \t", "\\$">>

(* --------------------------------- trees --------------------------------- *)
\* k: kind ("e" expression, "m" matrix, "r" relation or list); l: level as in Arith; g: number of the construct
Node(c, kids, l, f, z, g, bar, d) == [c |-> c, t |-> "", kids |-> kids, l |-> l, first |-> f, last |-> z, g |-> g, bar |-> bar, k |-> IF c \in {"mat", "tr", "swap"} THEN "m" ELSE "e", d |-> d]
Leaf(t, kind) == [c |-> "leaf", t |-> t, kids |-> <<>>, l |-> 5, first |-> kind, last |-> kind, g |-> 0, bar |-> FALSE, k |-> "e", d |-> 1]
Leaves == [two |-> Leaf("2", "digit"), seven |-> Leaf("7", "digit"), twelve |-> Leaf("12", "number"), half |-> Leaf("0.5", "number"), pct |-> Leaf("40\\%", "number"),
           x |-> Leaf("x", "letter"), y |-> Leaf("y", "letter"), k |-> Leaf("k", "letter"), alpha |-> Leaf("\\alpha ", "greek"), pi |-> Leaf("\\pi ", "const"),
           one |-> Leaf("1", "digit"), a |-> Leaf("a", "letter"), zero |-> Leaf("0", "digit"),
           three |-> Leaf("3", "digit"), four |-> Leaf("4", "digit"), five |-> Leaf("5", "digit"), six |-> Leaf("6", "digit"), eight |-> Leaf("8", "digit"), nine |-> Leaf("9", "digit"),
           n |-> Leaf("n", "letter"), z |-> Leaf("z", "letter"), cap |-> Leaf("M", "letter"), tt |-> Leaf("T", "letter"), theta |-> Leaf("\\theta ", "greek"), thousand |-> Leaf("1,250", "number"), bigpct |-> Leaf("1,250\\%", "number"), sci |-> Leaf("3E2", "number")]
Opaque(c, kids, g, bar) == Node(c, kids, 5, "cmd", "cmd", g, bar, 1)
Bars(s) == \E i \in DOMAIN s : s[i].bar
Group(e, g) == Opaque("group", <<e>>, g, e.bar)
Need(e, l, g) == IF e.l < l THEN Group(e, g) ELSE e
Two(c, x, y, lx, ly, l, g) == LET a == Need(x, lx, g + 1) b == Need(y, ly, g + 2) IN Node(c, <<a, b>>, l, a.first, b.last, g, a.bar \/ b.bar, 1)
One(e) == e.c = "leaf" /\ e.first \in {"digit", "letter"}
Digit(e) == e.c = "leaf" /\ e.first = "digit"
Lettery(z) == z \in {"letter", "greek"}
\* the first token of what follows in a product: no digit, and no parenthesis after a letter
Jux(x, y, g) ==
  LET a0 == Need(x, 3, g + 1) b0 == Need(y, 3, g + 2)
      b == IF b0.first \in {"digit", "number"} THEN Group(b0, g + 3) ELSE b0
      a == IF Lettery(a0.last) /\ b.c # "leaf" THEN Opaque("frac", <<a0, Leaves.two>>, g + 4, a0.bar) ELSE a0
  IN Node("jux", <<a, b>>, 2, a.first, b.last, g, a.bar \/ b.bar, 1)
Pow(x, y, g) == LET a == IF x.l < 5 THEN Group(x, g + 1) ELSE x IN Node(IF One(y) THEN "pow1" ELSE "pow", <<a, y>>, 4, a.first, "cmd", g, a.bar \/ y.bar, 1)
Abs1(x, g) == Opaque(IF x.bar THEN "abs" ELSE "abs1", <<x>>, g, TRUE)
RECURSIVE HasX(_)
HasX(e) == IF e.c = "leaf" THEN e.t = "x" ELSE e.c = "ddx" \/ \E i \in DOMAIN e.kids : HasX(e.kids[i])
Plain(x) == x.k = "e"
Unaries(x, g) ==
  IF x.k = "m" THEN {Opaque(c, <<x>>, g, x.bar) : c \in {"trace", "norm"}} \cup (IF x.c = "mat" THEN {Opaque("swap", <<x>>, g, x.bar), Node("tr", <<x>>, 4, "cmd", "cmd", g, x.bar, 1)} ELSE {})
  ELSE {Opaque(c, <<x>>, g, x.bar) : c \in {"group", "floor", "ceil", "asinh", "acosh", "atanh", "asin", "acos", "atan", "acot", "asec", "acsc", "sin", "cos2", "ln", "lg", "exp"}}
     \cup {Node("neg", <<Need(x, 2, g + 1)>>, 2, "minus", x.last, g, x.bar, 1), Node("fact", <<Need(x, 5, g + 1)>>, 3, x.first, "cmd", g, x.bar, 1), Abs1(x, g), Opaque(IF Digit(x) THEN "sqrt1" ELSE "sqrt", <<x>>, g, x.bar),
           Node("ddx", <<Need(x, 3, g + 1)>>, 2, "cmd", "cmd", g, x.bar, 1)}
     \cup (IF x.c = "leaf" /\ x.first \in {"letter", "greek"} THEN {Node(c, <<x>>, 5, "greek", "greek", g, FALSE, 1) : c \in {"bar", "vec", "tilde"}} ELSE {})
Binaries(x, y, g) ==
  IF ~(Plain(x) /\ Plain(y)) THEN {Two("mul", x, y, 1, 3, 1, g)}
  ELSE {Two("sum", x, y, 0, 1, 0, g), Two("dif", x, y, 0, 1, 0, g), Two("mul", x, y, 1, 3, 1, g), Two("div", x, y, 1, 3, 1, g), Jux(x, y, g), Pow(x, y, g),
        Opaque(IF Digit(x) /\ Digit(y) THEN "frac1" ELSE "frac", <<x, y>>, g, x.bar \/ y.bar), Opaque("binom", <<x, y>>, g, x.bar \/ y.bar), Opaque("root", <<x, y>>, g, x.bar \/ y.bar),
        Opaque("mat", <<x, y, Leaves.one, Leaves.a>>, g, x.bar \/ y.bar), Opaque("max", <<x, y>>, g, x.bar \/ y.bar), Opaque("gcd", <<x, y>>, g, x.bar \/ y.bar), Opaque("lcm", <<x, y>>, g, x.bar \/ y.bar),
        Node(IF One(x) /\ One(y) THEN "int1" ELSE "int", <<x, y, Leaves.x>>, 2, "cmd", "cmd", g, x.bar \/ y.bar, 1),
        Node("int", <<Leaves.zero, x, y>>, 2, "cmd", "cmd", g, x.bar \/ y.bar, 1), Node("summ", <<Leaves.one, x, Need(y, 2, g + 1)>>, 1, "cmd", "cmd", g, x.bar \/ y.bar, 1),
        Node("prod", <<x, Leaves.seven, Need(y, 2, g + 1)>>, 1, "cmd", "cmd", g, x.bar \/ y.bar, 1), Node("lim", <<IF HasX(x) THEN Leaves.a ELSE x, Need(y, 2, g + 1)>>, 1, "cmd", "cmd", g, x.bar \/ y.bar, 1)}
     \cup (IF One(y) THEN {Opaque("log", <<x, y>>, g, x.bar)} ELSE {})
     \cup (IF x.c = "leaf" /\ x.first = "letter" /\ One(y) THEN {Node("sub", <<x, y>>, 5, "letter", "letter", g, FALSE, 1), Node("subpow", <<x, Leaves.one, y>>, 4, "letter", "cmd", g, FALSE, 1)} ELSE {})
Rels(x, y, g) == {[Node(c, <<x, y>>, 0, "cmd", "cmd", g, FALSE, 1) EXCEPT !.k = "r"] : c \in {"eq", "le", "ge", "ne", "lt", "gt", "list"}}

(* -------------------------------- writing -------------------------------- *)
Hole == [s \in {"#1", "#2", "#3", "#4"} |-> IF s = "#1" THEN 1 ELSE IF s = "#2" THEN 2 ELSE IF s = "#3" THEN 3 ELSE 4]
\* sty.mode: "one" (construct sty.c takes spelling sty.n, blanks of kind sty.gap everywhere) or "mix" (all by the number sty.n)
Which(nd, sty, n) == IF sty.mode = "one" THEN (IF nd.c = sty.c THEN sty.n % n ELSE 0) ELSE (sty.n * ((nd.g * 7) + 3) + nd.g) % n
Gap(nd, i, sty) == IF sty.mode = "one" THEN Gaps[sty.gap] ELSE IF ((sty.n + i * 5 + nd.g) % 4) = 0 THEN At(Gaps, (sty.n \div 7) + i * 3 + nd.g) ELSE ""
RECURSIVE Write(_, _), Items(_, _, _, _)
Write(nd, sty) == IF nd.c = "leaf" THEN nd.t ELSE LET tm == Alts[nd.c][Which(nd, sty, Len(Alts[nd.c])) + 1] IN Items(nd, tm, 1, sty)
Items(nd, tm, i, sty) == IF i > Len(tm) THEN "" ELSE
   (IF i = 1 THEN "" ELSE Gap(nd, i, sty)) \o (IF tm[i] \in DOMAIN Hole THEN Write(nd.kids[Hole[tm[i]]], sty) ELSE tm[i]) \o Items(nd, tm, i + 1, sty)
Canon == [mode |-> "one", c |-> "", n |-> 0, gap |-> 1]
RECURSIVE Constructs(_)
Constructs(nd) == IF nd.c = "leaf" THEN {} ELSE {nd.c} \cup UNION {Constructs(nd.kids[i]) : i \in DOMAIN nd.kids}

(* -------------------------------- behaviour ------------------------------ *)
Init == st = [phase |-> "build", s |-> <<>>, ops |-> 0, lv |-> 0, a |-> "", b |-> "", why |-> ""]
N == Len(st.s)
Can == st.ops < MaxOps
G == st.ops * 6 + 1
Push == st.phase = "build" /\ N < 2 /\ st.lv < MaxLeaves /\ (N = 0 \/ Can) /\ \E n \in LeafNames : st' = [st EXCEPT !.s = Append(@, Leaves[n]), !.lv = @ + 1]
\* the constructs a run is confined to, if any
Keep(T) == IF Only = {} THEN T ELSE {e \in T : e.c \in Only}
Unary == st.phase = "build" /\ N >= 1 /\ Can /\ \E e \in Keep(Unaries(st.s[N], G)) : st' = [st EXCEPT !.s = SubSeq(@, 1, N - 1) \o <<e>>, !.ops = @ + 1]
Binary == st.phase = "build" /\ N = 2 /\ Can /\ \E e \in Keep(Binaries(st.s[1], st.s[2], G)) : st' = [st EXCEPT !.s = <<e>>, !.ops = @ + 1]
Relate == st.phase = "build" /\ N = 2 /\ Can /\ Plain(st.s[1]) /\ Plain(st.s[2]) /\ \E e \in Keep(Rels(st.s[1], st.s[2], G)) : st' = [st EXCEPT !.s = <<e>>, !.ops = @ + 1, !.phase = "write"]
Close == st.phase = "build" /\ N = 1 /\ st.ops >= 1 /\ (Exhaustive \/ st.ops >= MaxOps - 1) /\ st' = [st EXCEPT !.phase = "write"]
Styles == IF Exhaustive THEN UNION {{[mode |-> "one", c |-> c, n |-> n, gap |-> 1] : n \in 1..(Len(Alts[c]) - 1)} : c \in Constructs(st.s[1])} \cup {[mode |-> "one", c |-> "", n |-> 0, gap |-> g] : g \in 2..Len(Gaps)}
          ELSE {[mode |-> "mix", c |-> "", n |-> n, gap |-> 1] : n \in Pick(5000)}
Spell == st.phase = "write" /\ \E sty \in Styles :
            LET b == Write(st.s[1], sty) IN
            /\ Len(b) < 150
            /\ st' = [st EXCEPT !.phase = "done", !.a = Write(st.s[1], Canon), !.b = b, !.why = IF sty.mode = "one" THEN sty.c \o "/" \o S(sty.n) \o "/" \o S(sty.gap) ELSE "mix"]
Next == IF st.phase = "build" THEN Push \/ Unary \/ Binary \/ Relate \/ Close ELSE Spell

(* ------------------------------- properties ------------------------------ *)
Balanced == \A i \in 1..N : \A j \in DOMAIN st.s[i].kids : st.s[i].kids[j].k # "r"
BarsMarked == \A i \in 1..N : st.s[i].c \in {"abs", "abs1"} => st.s[i].bar
ASSUME \A c \in DOMAIN Alts : Len(Alts[c]) >= 1 /\ \A i, j \in DOMAIN Alts[c] : i # j => Alts[c][i] # Alts[c][j]
\* all spellings of a construct have the same parts
ASSUME \A c \in DOMAIN Alts : \A i \in DOMAIN Alts[c] : RangeOf(Alts[c][i]) \cap DOMAIN Hole = RangeOf(Alts[c][1]) \cap DOMAIN Hole
Emit == st.phase = "done" => Out([op |-> "same", a |-> st.a, b |-> st.b, why |-> st.why])
=============================================================================
