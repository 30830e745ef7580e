-------------------------------- MODULE Idents --------------------------------
(* C21.  Identifiers: a base (letter, command, accented identifier) with an   *)
(* optional subscript.  Two occurrences are the same identifier iff their     *)
(* records are equal; each record has several spellings.  Constants,          *)
(* functions applied to an argument and products of juxtaposed identifiers    *)
(* are built from them.                                                       *)
EXTENDS Base
CONSTANTS Mode           \* "list": every identifier of the lists, every spelling; "terms": random sums of products
VARIABLES st

At(s, i) == s[(i % Len(s)) + 1]

(* ------------------------------- identifiers ------------------------------ *)
Letters == {"a", "b", "c", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "F", "G", "H", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Greek == {"alpha", "beta", "Gamma", "gamma", "Delta", "delta", "epsilon", "varepsilon", "zeta", "eta", "Theta", "theta", "vartheta", "iota", "kappa", "Lambda", "lambda", "mu", "nu", "Xi", "xi", "omicron", "Pi", "varpi", "rho", "varrho", "Sigma", "sigma", "varsigma", "tau", "Upsilon", "upsilon", "Phi", "phi", "varphi", "chi", "Psi", "psi", "Omega", "omega"}
Others == {"Bbbk", "wp", "nabla", "bigstar", "angle", "nexists", "measuredangle", "eth", "varnothing", "Diamond", "complement", "imath", "jmath", "Finv", "triangledown", "heartsuit", "Game", "triangle", "spadesuit", "ell", "hbar", "hslash", "lozenge", "blacksquare", "mho", "sharp", "prime", "Im", "flat", "square", "Re", "natural", "surd", "circledS"}
Accents == <<<<"bar", "overline">>, <<"vec", "overrightarrow">>, <<"tilde", "widetilde">>, <<"hat">>, <<"dot">>, <<"ddot">>, <<"acute">>, <<"breve">>, <<"check">>, <<"widecheck">>, <<"grave">>, <<"bm">>, <<"boldsymbol">>, <<"text">>, <<"textit">>, <<"mathbb">>, <<"mathbf">>, <<"mathcal">>, <<"mathfrak">>, <<"mathit">>, <<"mathnormal">>, <<"mathring">>, <<"mathrm">>, <<"mathscr">>, <<"mathsf">>, <<"mathtt">>>>
NoSub == <<"none", "">>
\* an identifier: k kind, n name (or accent number), of what an accent stands over, sub its subscript
Id(k, n, of, sub) == [k |-> k, n |-> n, of |-> of, sub |-> sub]
L(n, sub) == Id("letter", n, <<>>, sub)
G(n, sub) == Id("cmd", n, <<>>, sub)
A(a, of, sub) == Id("accent", a, <<of>>, sub)
Word(t) == Id("word", t, <<>>, NoSub)               \* several letters, under an accent only
Subs == {<<"digit", "1">>, <<"digit", "2">>, <<"number", "12">>, <<"number", "21">>, <<"letter", "n">>, <<"letter", "x">>, <<"greek", "alpha">>, <<"greek", "beta">>, <<"word", "ab">>, <<"word", "ba">>, <<"list", "1,2">>, <<"list", "2,1">>, <<"list", "i,j">>, <<"sum", "n+1">>, <<"sum", "n-1">>, <<"nested", "i1">>, <<"nested", "i2">>, <<"gword", "alpha b">>, <<"gpair", "alpha beta">>, <<"gdigit", "alpha 1">>}

SpellSub(s, w) == CASE s[1] = "none" -> ""
  [] s[1] = "digit" -> At(<<"_" \o s[2], "_{" \o s[2] \o "}", "_{ " \o s[2] \o " }", " _" \o s[2]>>, w)
  [] s[1] = "letter" -> At(<<"_" \o s[2], "_{" \o s[2] \o "}", "_{ " \o s[2] \o "}", "_ " \o s[2]>>, w)
  [] s[1] = "number" -> At(<<"_{" \o s[2] \o "}", "_{ " \o s[2] \o " }">>, w)
  [] s[1] = "greek" -> At(<<"_\\" \o s[2] \o " ", "_{\\" \o s[2] \o "}", "_{\\" \o s[2] \o " }">>, w)
  [] s[1] = "word" -> At(<<"_{" \o s[2] \o "}", "_{" \o SubSeq(s[2], 1, 1) \o " " \o SubSeq(s[2], 2, 2) \o "}">>, w)
  [] s[1] = "list" -> At(<<"_{" \o s[2] \o "}", "_{" \o SubSeq(s[2], 1, 2) \o " " \o SubSeq(s[2], 3, 3) \o "}">>, w)
  [] s[1] = "sum" -> At(<<"_{" \o s[2] \o "}", "_{" \o SubSeq(s[2], 1, 1) \o " " \o SubSeq(s[2], 2, 2) \o " " \o SubSeq(s[2], 3, 3) \o "}">>, w)
  [] s[1] = "nested" -> LET a == SubSeq(s[2], 1, 1) b == SubSeq(s[2], 2, 2) IN At(<<"_{" \o a \o "_" \o b \o "}", "_{" \o a \o "_{" \o b \o "}}", "_{" \o a \o "_ " \o b \o "}">>, w)
  [] s[1] = "gword" -> At(<<"_{\\alpha b}", "_{ \\alpha  b }">>, w)
  [] s[1] = "gpair" -> At(<<"_{\\alpha\\beta}", "_{\\alpha \\beta}", "_{\\alpha\\beta }">>, w)
  [] s[1] = "gdigit" -> At(<<"_{\\alpha 1}", "_{\\alpha1}">>, w)
RECURSIVE SpellBase(_, _), Spell(_, _)
SpellBase(i, w) == CASE i.k \in {"letter", "word"} -> i.n
  [] i.k = "cmd" -> "\\" \o i.n
  [] i.k = "accent" -> LET u == Spell(i.of[1], w) IN "\\" \o At(Accents[i.n], w) \o At(<<"{" \o u \o "}", "{" \o u \o "}", "{ " \o u \o " }", "{" \o u \o " }">>, w \div 2)
Spell(i, w) == SpellBase(i, w) \o SpellSub(i.sub, w)
\* with a power, on either side of the subscript
SpellPow(i, p, w) == IF w % 2 = 0 THEN SpellBase(i, w) \o SpellSub(i.sub, w) \o "^" \o (IF w % 4 = 0 THEN p ELSE "{" \o p \o "}") ELSE SpellBase(i, w) \o "^{" \o p \o "}" \o SpellSub(i.sub, w \div 2)

Few == {NoSub, <<"digit", "1">>, <<"number", "12">>, <<"letter", "n">>, <<"greek", "alpha">>, <<"list", "1,2">>}
Idents == {L(n, s) : n \in Letters, s \in {NoSub, <<"digit", "1">>}} \cup {L(n, s) : n \in {"x", "n", "I"}, s \in Subs} \cup {L("x", NoSub)}
          \cup {G(n, s) : n \in Greek, s \in {NoSub, <<"digit", "1">>}} \cup {G(n, NoSub) : n \in Others} \cup {G(n, s) : n \in {"alpha", "hbar", "varphi"}, s \in Subs}
          \cup {A(a, L(n, NoSub), s) : a \in 1..Len(Accents), n \in {"x", "v"}, s \in {NoSub, <<"digit", "1">>}}
          \cup {A(a, of, s) : a \in {1, 2, 3, 4, 17, 14}, of \in {L("x", <<"digit", "1">>), G("alpha", NoSub), G("beta", NoSub), Word("AB"), Word("xy"), L("x", <<"greek", "alpha">>)}, s \in Few}
Fs == {L("f", NoSub), L("g", NoSub), L("f", <<"digit", "1">>), L("f", <<"number", "12">>), L("h", <<"letter", "n">>), G("alpha", NoSub), G("phi", <<"digit", "2">>), A(1, L("f", NoSub), NoSub), A(4, L("f", NoSub), NoSub), A(17, L("f", NoSub), NoSub)}
Args == {L("x", NoSub), L("y", NoSub), L("x", <<"digit", "1">>), L("x", <<"number", "12">>), G("theta", NoSub), A(1, L("x", NoSub), NoSub)}
\* a function applied: to identifiers or digits
App(f, as) == [k |-> "app", n |-> "", of |-> <<f>> \o as, sub |-> NoSub]
SpellApp(a, w) == SpellBase(a.of[1], w) \o SpellSub(a.of[1].sub, w) \o At(<<"(", " (", "( ">>, w) \o Join([i \in 1..(Len(a.of) - 1) |-> Spell(a.of[i + 1], w + i)], At(<<",", ", ">>, w)) \o At(<<")", " )">>, w)
SpellAny(i, w) == IF i.k = "app" THEN SpellApp(i, w) ELSE IF i.k = "const" THEN At(i.n, w) ELSE Spell(i, w)
Apps == {App(f, <<a>>) : f \in Fs, a \in Args} \cup {App(f, <<a, b>>) : f \in {L("f", NoSub), A(1, L("f", NoSub), NoSub)}, a \in {L("x", NoSub), L("y", NoSub)}, b \in Args}
Constant(n, v) == [k |-> "const", n |-> n, of |-> <<>>, sub |-> NoSub, v |-> v]
Consts == {Constant(<<"\\pi ">>, "pi"), Constant(<<"e">>, "E"), Constant(<<"I">>, "I"), Constant(<<"\\infty ">>, "oo"), Constant(<<"\\exponentialE ">>, "E"), Constant(<<"\\emptyset ">>, "EmptySet")}
Words == <<"pi", "alpha", "mu", "nu", "phi", "xbar", "hbar", "sin", "log", "max", "gamma", "ab", "ba", "xyz", "abc", "nabla", "infty", "iI">>

(* ---------------------------------- terms --------------------------------- *)
Some == <<L("x", NoSub), L("y", NoSub), L("a", NoSub), L("b", NoSub), L("x", <<"digit", "1">>), L("x", <<"number", "12">>), L("a", <<"letter", "n">>), L("n", NoSub), L("k", <<"greek", "alpha">>), L("p", NoSub), L("i", NoSub), L("I", <<"digit", "1">>), L("I", <<"letter", "n">>),
          G("alpha", NoSub), G("beta", <<"digit", "1">>), G("Delta", NoSub), G("hbar", NoSub), G("varphi", <<"list", "1,2">>), A(1, L("x", NoSub), NoSub), A(1, L("x", NoSub), <<"digit", "1">>), A(1, L("x", <<"digit", "1">>), NoSub), A(2, L("v", NoSub), NoSub), A(4, L("x", NoSub), NoSub),
          A(3, G("alpha", NoSub), NoSub), A(17, L("x", NoSub), NoSub), A(14, Word("AB"), NoSub), A(1, Word("AB"), NoSub), L("x", <<"nested", "i1">>), L("x", <<"gword", "alpha b">>), L("x", <<"sum", "n+1">>), L("x", <<"word", "ab">>), A(20, L("m", NoSub), NoSub),
          App(L("f", NoSub), <<L("x", NoSub)>>), App(L("f", NoSub), <<L("y", NoSub)>>), App(L("g", NoSub), <<L("x", NoSub)>>), App(L("f", <<"digit", "1">>), <<L("x", NoSub)>>), App(A(1, L("f", NoSub), NoSub), <<L("x", <<"digit", "1">>)>>), App(L("f", NoSub), <<L("x", NoSub), L("y", NoSub)>>), L("f", NoSub),
          Constant(<<"\\pi ">>, "pi"), Constant(<<"e">>, "E"), Constant(<<"I">>, "I")>>
\* the value each of them counts with
Val(i) == Q(((i * 37) % 53) + 2, 1 + (i % 3))
Init == st = [phase |-> "start", t |-> "", v |-> QZero, used |-> {}, p |-> QOne, pt |-> "", last |-> "", n |-> 0, a |-> <<>>, w |-> 0]
LastChar(t) == SubSeq(t, Len(t), Len(t))
IsLetter(c) == c \in Letters \cup {"e", "I", "d", "E"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
\* a blank or a dot is needed between a command and a letter, and between a name and a bracket
Sep(l, f, w) == IF l = "" THEN "" ELSE IF l = "cmd" /\ f = "letter" THEN " " ELSE IF f = "digit" THEN " \\cdot " ELSE At(<<"", " ", " \\cdot ", "*">>, w)
First(i) == IF i.k \in {"letter", "word"} \/ (i.k = "app" /\ i.of[1].k = "letter") \/ (i.k = "const" /\ i.v \in {"E", "I"}) THEN "letter" ELSE "cmd"
\* a name ending in an unbraced digit must not meet another digit; a script without braces ends before a blank
Ends(i) == IF i.k = "cmd" /\ i.sub = NoSub THEN "cmd" ELSE IF i.sub[1] = "greek" THEN "cmd" ELSE "other"
Term == Mode = "terms" /\ st.phase = "start" /\ st.n < 4 /\ \E c \in {RandomElement({2, 3, 5, -1, -2, 1})} :
        st' = [st EXCEPT !.phase = "factor", !.p = QI(c), !.pt = IF c = 1 THEN "" ELSE IF c = -1 THEN "" ELSE S(Abs(c)), !.t = @ \o (IF c < 0 THEN "-" ELSE IF st.n = 0 THEN "" ELSE "+"), !.last = IF Abs(c) = 1 THEN "" ELSE "num", !.n = @ + 1, !.w = 0]
Factor == st.phase = "factor" /\ Len(st.pt) < 45 /\ st.w < 3 /\ \E w \in {RandomElement(0..999)} : \E x \in {RandomElement(1..Len(Some))} : \E q \in {RandomElement({1, 1, 1, 2})} :
          LET i == Some[x] pow == q = 2 /\ i.k \notin {"app", "const"}
              r == QMul(st.p, IF pow THEN QMul(Val(x), Val(x)) ELSE Val(x)) sp == IF pow THEN SpellPow(i, "2", w) ELSE SpellAny(i, w) IN
          Small(r) /\ st' = [st EXCEPT !.p = r, !.pt = @ \o Sep(st.last, First(i), w \div 7) \o sp, !.used = @ \cup {x}, !.last = IF pow THEN "other" ELSE Ends(i), !.w = @ + 1]
Close == st.phase = "factor" /\ st.w > 0 /\ Small(QAdd(st.v, st.p)) /\ st' = [st EXCEPT !.phase = "start", !.t = @ \o st.pt, !.v = QAdd(@, st.p), !.p = QOne, !.pt = "", !.last = ""]
Done == Mode = "terms" /\ st.phase = "start" /\ st.n > 0 /\ st' = [st EXCEPT !.phase = "terms"]
Listed == Mode = "list" /\ st.phase = "start" /\ \E i \in Idents \cup Apps \cup Consts : \E w \in 0..7 : st' = [st EXCEPT !.phase = "one", !.a = <<i>>, !.w = w, !.t = SpellAny(i, w)]
Powers == Mode = "list" /\ st.phase = "start" /\ \E i \in {j \in Idents : j.sub \in Subs \/ j.k = "accent"} : \E w \in 0..3 : \E p \in {"2", "n"} : st' = [st EXCEPT !.phase = "pow", !.a = <<i>>, !.w = w, !.last = p, !.t = SpellPow(i, p, w)]
Juxtaposed == Mode = "list" /\ st.phase = "start" /\ \E i \in 1..Len(Words) : st' = [st EXCEPT !.phase = "word", !.t = Words[i]]
\* known to differ: a function applied with \left( \right) is read as a product
Marked == Mode = "list" /\ st.phase = "start" /\ st' = [st EXCEPT !.phase = "marked", !.t = "f\\left(x\\right)"]
Next == Term \/ Factor \/ Close \/ Done \/ Listed \/ Powers \/ Juxtaposed \/ Marked

(* ------------------------------- properties ------------------------------- *)
\* no text spells two identifiers
Key(i) == IF i.k = "const" THEN "const " \o i.v ELSE ToString(i)
All == Idents \cup Apps
ASSUME Mode = "list" => LET named == {<<SpellAny(i, w), i>> : i \in All, w \in 0..7} IN Cardinality({x[1] : x \in named}) = Cardinality(named)
Emit == /\ (st.phase = "one" => Out([op |-> "ident", a |-> st.t, id |-> Key(st.a[1]), kind |-> IF st.a[1].k = "const" THEN st.a[1].v ELSE IF st.a[1].k = "app" THEN "app" ELSE "symbol", why |-> st.a[1].k]))
        /\ (st.phase = "pow" => Out([op |-> "power", a |-> st.t, base |-> Spell(st.a[1], 0), p |-> st.last, why |-> st.a[1].k]))
        /\ (st.phase = "word" => Out([op |-> "word", a |-> st.t, letters |-> [j \in 1..Len(st.t) |-> SubSeq(st.t, j, j)], why |-> "word"]))
        /\ (st.phase = "marked" => Out([op |-> "pair", a |-> "f(x)", b |-> st.t, same |-> TRUE, why |-> "0"]))
        /\ (st.phase = "terms" => Out([op |-> "terms", a |-> st.t, n |-> st.v[1], d |-> st.v[2], env |-> [x \in 1..Len(Some) |-> IF x \in st.used THEN <<SpellAny(Some[x], 0), Val(x)[1], Val(x)[2]>> ELSE <<>>], why |-> "terms"]))
=============================================================================
