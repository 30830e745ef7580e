-------------------------------- MODULE Effects --------------------------------
(* C29.  Answers written as program code.  The world outside the comparison   *)
(* (files, processes, modules, names, output, and settings of the process)    *)
(* is a variable of the specification; running a piece of code would change   *)
(* it, comparing an answer that contains the piece leaves it as it is,        *)
(* whatever surrounds the piece and whichever side it is on.                  *)
EXTENDS Base
CONSTANTS MaxDepth, Codes, Ctxs, Calls, Random
VARIABLES st

Sq == "'"
Quoted(t, q) == q \o t \o q
\* the characters of a text as numbers, for code written without quotes
P(id, t, e) == [id |-> id, t |-> t, e |-> e]
\* what each piece does when run: f file written, d file removed, p process, m module imported, g name set, o output, s setting, r stopped
Pieces == {
  P("system", "__import__('os').system('touch zz')", {"p"}), P("system2", "__import__(\"os\").system(\"touch zz\")", {"p"}), P("popen", "__import__('subprocess').run(['touch','zz'])", {"p"}), P("spawn", "__import__('os').popen('id').read()", {"p"}),
  P("remove", "__import__('os').remove('victim')", {"d"}), P("rename", "__import__('os').rename('victim','zz')", {"d"}), P("mkdir", "__import__('os').mkdir('zz')", {"f"}), P("rmtree", "__import__('shutil').rmtree('.')", {"d"}),
  P("write", "open('zz','w').write('1')", {"f"}), P("open", "open('zz','w')", {"f"}), P("append", "open('victim','a')", {"f"}), P("exec", "exec('zz=1;open(chr(122),chr(119))')", {"f"}), P("eval", "eval('open(chr(122),chr(119))')", {"f"}),
  P("chr", "open(chr(122)+chr(122),chr(119))", {"f"}), P("chr1", "open(chr(122),chr(119))", {"f"}), P("bytes", "exec(bytes((111,112,101,110,40,99,104,114,40,49,50,50,41,44,99,104,114,40,49,49,57,41,41)))", {"f"}),
  P("import", "__import__('wsgiref')", {"m"}), P("import2", "__import__(chr(120)+chr(100)+chr(114))", {"m"}), P("imp", "import wsgiref", {"m"}), P("imp2", "__import__('xmlrpc.client')", {"m"}),
  P("print", "print(7)", {"o"}), P("printx", "print(x)", {"o"}), P("pprint", "pprint(x)", {"o"}), P("pretty", "pretty_print(x)", {"o"}), P("tree", "print_tree(x)", {"o"}), P("latexp", "print_latex(x)", {"o"}), P("mathml", "print_mathml(x)", {"o"}), P("textplot", "textplot(x,0,1)", {"o"}), P("help", "help(x)", {"o"}),
  P("preview", "preview(x)", {"p"}), P("initp", "init_printing()", {"s"}), P("inits", "init_session()", {"s"}), P("input", "input()", {"r"}), P("exit", "exit()", {"r"}), P("quit", "quit(1)", {"r"}), P("break", "breakpoint()", {"r"}),
  P("setattr", "setattr(__import__('builtins'),'zz',1)", {"g"}), P("globals", "globals().update({'zz':1})", {"g"}), P("var", "var('zz')", {"g"}), P("main", "__import__('__main__').__dict__.update(zz=1)", {"g"}), P("walrus", "(pi:=3)", {"g"}), P("walrus2", "[sin:=cos]", {"g"}), P("environ", "__import__('os').environ.update(ZZ='1')", {"s"}),
  P("chdir", "__import__('os').chdir('/')", {"s"}), P("reclimit", "__import__('sys').setrecursionlimit(77)", {"s"}), P("seed", "__import__('random').seed(7)", {"s"}), P("alarm", "__import__('signal').alarm(0)", {"s"}),
  P("class", "().__class__.__base__.__subclasses__()", {}), P("class2", "x.__class__.__mro__[1].__subclasses__()", {}), P("frame", "(lambda:(yield))().gi_frame.f_back.f_globals.update(zz=1)", {"g"}), P("fname", "sin.__globals__.update(zz=1)", {"g"}), P("fstr", "f'{open(chr(122),chr(119))}'", {"f"}),
  P("sympify", "sympify('open(chr(122),chr(119))')", {"f"}), P("S", "S('open(chr(122),chr(119))')", {"f"}), P("N", "N('open(chr(122),chr(119))')", {"f"}), P("simp", "simplify('open(chr(122),chr(119))')", {"f"}), P("parse", "parse_expr('open(chr(122),chr(119))')", {"f"}), P("matrix", "Matrix('open(chr(122),chr(119))')", {"f"}),
  P("sqrt", "sqrt('open(chr(122),chr(119))')", {"f"}), P("lamb", "lambdify(x,'open(chr(122),chr(119))')(1)", {"f"}), P("solve", "solve('open(chr(122),chr(119))')", {"f"}), P("list", "[open(chr(122),chr(119))for i in range(2)]", {"f"}), P("cond", "(1 if open(chr(122),chr(119)) else 2)", {"f"}), P("lambda", "(lambda:open(chr(122),chr(119)))()", {"f"}),
  P("input2", "\\input{victim}", {}), P("write18", "\\immediate\\write18{touch zz}", {}), P("def", "\\def\\pi{3}", {}), P("variable", "\\variable{__import__('os').system('touch zz')}", {"p"}), P("code", "python -c \"open('zz','w')\"", {"f"}), P("at", "@zz", {}), P("bang", "!touch zz", {}), P("pipe", "|touch zz", {}), P("into", ">zz", {}), P("from", "<victim", {}), P("url", "file:zz", {}), P("magic", "%run victim", {}), P("openout", "\\openout1=zz", {}), P("graphics", "\\includegraphics{victim}", {}), P("name", "victim", {}), P("format", "{0.__class__}", {}), P("percent", "%(zz)s", {}), P("env", "${HOME}", {}), P("shell", "$(touch zz)", {}), P("tick", "`touch zz`", {})}
X(a, b) == <<a, b>>
Surround == {[id |-> "bare", p |-> X("", "")], [id |-> "paren", p |-> X("(", ")")], [id |-> "list", p |-> X("[", ",1]")], [id |-> "set", p |-> X("\\{", ",2\\}")], [id |-> "braces", p |-> X("{", "}")], [id |-> "pair", p |-> X("(1,", ")")], [id |-> "plus", p |-> X("1+", "")], [id |-> "plus2", p |-> X("", "+x")], [id |-> "times", p |-> X("2*", "")],
             [id |-> "eq", p |-> X("x=", "")], [id |-> "frac", p |-> X("\\frac{", "}{2}")], [id |-> "sqrt", p |-> X("sqrt(", ")")], [id |-> "text", p |-> X("\\text{", "}")], [id |-> "mathrm", p |-> X("\\mathrm{", "}")], [id |-> "dollar", p |-> X("$", "$")], [id |-> "boxed", p |-> X("\\boxed{", "}")], [id |-> "units", p |-> X("", "\\text{ cm}")], [id |-> "percent", p |-> X("", "\\%")],
             [id |-> "money", p |-> X("\\$", "")], [id |-> "power", p |-> X("2^", "")], [id |-> "powerb", p |-> X("2^{", "}")], [id |-> "abs", p |-> X("|", "|")], [id |-> "call", p |-> X("sin(", ")")], [id |-> "in", p |-> X("x\\in ", "")], [id |-> "le", p |-> X("x\\le ", "")], [id |-> "interval", p |-> X("[0,", ")")], [id |-> "union", p |-> X("(0,1)\\cup(2,", ")")],
             [id |-> "matrix", p |-> X("\\begin{pmatrix}1\\\\", "\\end{pmatrix}")], [id |-> "pm", p |-> X("1\\pm ", "")], [id |-> "or", p |-> X("1 or ", "")], [id |-> "space", p |-> X(" ", " ")], [id |-> "newline", p |-> X("1\n", "")], [id |-> "semi", p |-> X("1;", "")], [id |-> "hash", p |-> X("", "#")], [id |-> "lambda", p |-> X("(lambda:", ")()")], [id |-> "comp", p |-> X("[", " for x in [1]]")],
             [id |-> "neq", p |-> X("x\\neq ", "")], [id |-> "def", p |-> X("f(x)=", "")], [id |-> "cmplx", p |-> X("2i+", "")], [id |-> "angle", p |-> X("\\langle 1,", "\\rangle ")], [id |-> "left", p |-> X("\\left(", ",3\\right)")], [id |-> "index", p |-> X("[1,2][", "]")], [id |-> "dict", p |-> X("{1:", "}")], [id |-> "time", p |-> X("12:", "")], [id |-> "fact", p |-> X("", "!")],
             [id |-> "rows", p |-> X("[[", ",1],[2,3]]")], [id |-> "rows2", p |-> X("[[1,2],[3,", "]]")], [id |-> "tuples", p |-> X("((", ",1),(2,3))")]}
\* what the piece is compared with where the context alone decides which reading is tried
Grid == "\\begin{pmatrix}1&2\\\\3&4\\end{pmatrix}"
Partners == {"1", "x", "(1,2)", "[0,1)", "\\frac{1}{2}", "x=1", "\\{1,2\\}", "abc", "\\begin{pmatrix}1\\\\2\\end{pmatrix}", "2i+1", "f(x)=x", Grid}
Types == {"Numeric", "Expression", "Equation", "Interval", "Set", "Vector", "Complex", "Function", "Text"}

One(T) == IF Random THEN {RandomElement(T)} ELSE T
PSet == IF Codes = {} THEN Pieces ELSE {p \in Pieces : p.id \in Codes}
CSet == IF Ctxs = {} THEN Surround ELSE {c \in Surround : c.id \in Ctxs}
World == [files |-> {"victim"}, procs |-> {}, modules |-> {}, names |-> {}, output |-> <<>>, settings |-> "as set"]
Init == st = [phase |-> "code", t |-> "", d |-> 0, e |-> {}, id |-> "", call |-> "", b |-> "", left |-> TRUE, world |-> World]
Code == st.phase = "code" /\ \E p \in One(PSet) : st' = [st EXCEPT !.t = p.t, !.e = p.e, !.id = p.id, !.phase = "wrap"]
Wrap == st.phase = "wrap" /\ st.d < MaxDepth /\ \E c \in One(CSet) : st' = [st EXCEPT !.t = c.p[1] \o @ \o c.p[2], !.d = @ + 1]
\* the comparison: the verdict is of no concern here, the world is
Compare == st.phase = "wrap" /\ st.d > 0 /\ \E c \in One(Calls) : \E b \in (IF Random THEN {RandomElement(Partners)} ELSE {"1", "(1,2)", Grid}) : \E l \in (IF Random THEN {RandomElement(BOOLEAN)} ELSE {TRUE}) :
              st' = [st EXCEPT !.phase = "done", !.call = c, !.b = b, !.left = l]
Next == Code \/ Wrap \/ Compare

Untouched == st.world = World
Emit == st.phase = "done" => Out([op |-> "compare", a |-> st.t, b |-> st.b, call |-> st.call, left |-> st.left, why |-> st.id])
=============================================================================
