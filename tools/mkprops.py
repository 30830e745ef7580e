#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
EV = "math_evaluation/core/evaluations.py"
NO = "math_evaluation/core/latex_normalize.py"
PA = "math_evaluation/core/latex_parser.py"
TY = "math_evaluation/core/type_evaluations.py"
L2 = "latex2sympy/latex2sympy2.py"
PS = "latex2sympy/PS.g4"
LL = "math_evaluation/llms/llm_models.py"
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": hook}})


prop("C01", "Numeric answers match within a tolerance fixed by the ground truth",
     "Two real-number answers g (ground truth) and p (prediction) are judged equal exactly when |g-p| < 0.005 if |g| >= 1, |g-p| < |g|/1000 if 0 < |g| < 1, and |g-p| < 0.001 if g = 0. "
     "This holds for either sign, any magnitude, and whether the numbers are written as integers, decimals, fractions, square roots or multiples of pi.",
     ["inputs"], "every pair of real-number answers",
     "The suite compares a few pairs far from the threshold; none straddles a threshold, none is negative or zero, and the rule is asymmetric in its arguments.",
     [PA, EV], [("threshold by ground truth class", PA + ":_diff_equal"), ("evaluation before comparison", PA + ":_are_equal_latex_sympy")],
     ["is_equiv(ground_truth, prediction)"])

prop("C02", "Every supported notation of a number is interchangeable",
     "The same number written as an integer, a decimal (leading or trailing zeros optional), a plain or LaTeX fraction (braced or single-digit shorthand, \\frac, \\dfrac, \\tfrac), a mixed number of either sign, a comma-grouped integer, a power-of-ten product, computer e-notation, or with million/billion/trillion is accepted as equal to every other such writing, on either side. "
     "Writings of two numbers further apart than the tolerance are never accepted as equal.",
     ["inputs"], "every number and every ordered pair of supported notations",
     "A handful of notation pairs are sampled; the notation pairs, signs, digit counts and magnitudes are combinatorial.",
     [NO, PA, L2], [("normalisation pipeline", NO + ":_string_normalize, further_string_normalize"), ("mixed numbers", NO + ":_inject_implicit_mixed_number"), ("thousands commas", NO + ":_strip_properly_formatted_commas"), ("e-notation", NO + ":float_to_latex_scientific")],
     ["is_equiv", "string_normalize"])

prop("C03", "Units, currency, spacing and sizing decorations never change a verdict",
     "Adding to a number on either side a dollar sign or $...$ wrapper, LaTeX spacing (\\, \\! \\; \\:), surrounding blanks, \\left/\\right sizing, an enclosing \\text or \\mbox, a 'variable \\in' prefix, or a supported unit with optional plural and power (long units bare or in \\text/\\mbox; short units after a space or in \\text/\\mbox) leaves the verdict unchanged. "
     "A short or single-letter unit glued to the number without \\text is not a unit, and two different bare unit words are not equal to each other.",
     ["inputs"], "every number, every supported decoration and combination of them, on either side",
     "About a dozen of the several hundred unit/plural/power/wrapper combinations are sampled.",
     [NO, "math_evaluation/core/constants.py"], [("unit tables", "math_evaluation/core/constants.py:UNIT_LIST"), ("decoration removal", NO + ":_string_normalize")],
     ["is_equiv", "string_normalize"])

prop("C04", "Percents, degrees, clock times and based numerals have exactly two readings",
     "A percentage p% matches exactly the numbers p and p/100; an angle d^\\circ matches exactly d and d*pi/180; a numeral in base b (1..digits written N_b or N_{b}) matches exactly the literal digits and their value; a pm time matches exactly the hour on the 12-hour and on the 24-hour clock with its minutes and non-zero seconds. "
     "Two such answers match exactly when some reading of one matches some reading of the other.",
     ["inputs"], "every percentage, angle, time and base numeral and every answer compared with it",
     "Each notation is sampled once or twice, and never with a value that must be rejected.",
     [NO, EV], [("percent", NO + ":_string_normalize"), ("time", NO + ":_str_to_time_list"), ("base", NO + ":_str_to_decimal"), ("any-reading match", EV + ":is_equiv")],
     ["is_equiv"])

prop("C05", "Unordered answers match by a one-to-one pairing of their elements",
     "A comma-separated answer (bare, in braces or \\{ \\}, or joined by 'and'/'or', with elements pairwise distinct) matches another exactly when both have the same number of elements and there is a one-to-one pairing in which every pair of elements is itself equal. "
     "The order of the elements on either side never affects the verdict, whether the elements are numbers, tuples, or named values such as x = 1.",
     ["inputs", "schedules"], "every pair of lists, every permutation, every set iteration order",
     "Tests permute three well-separated numbers; greedy pairing, near-tolerance elements, length mismatches and repeated matches are not reached.",
     [EV, NO], [("pairing", EV + ":is_equiv_possible_tuple"), ("splitting", NO + ":split_tuple")], ["is_equiv"])

prop("C06", "Ordered tuples and lists match position by position",
     "A parenthesised tuple or bracketed list of two or more elements matches another exactly when both use the same kind of bracket, have the same length, and every pair of elements in the same position is itself equal, recursively for nested tuples and lists. "
     "A tuple or list never matches a bare unordered list or a single number. (Two elements in round or square brackets are also an interval, see C07: either reading may make a pair match.)",
     ["inputs"], "every pair of (nested) tuples and lists",
     "One negative and one nested example; positions, lengths, nesting and bracket kinds are not enumerated.",
     [EV, NO], [("splitting", NO + ":split_tuple"), ("element-wise", EV + ":is_equiv_possible_tuple")], ["is_equiv"])

prop("C07", "Intervals, their unions and intersections match as sets of reals",
     "Two answers written as nonempty intervals combined with \\cup and \\cap (open, half-open or closed ends, finite or infinite, endpoints in any exact notation, with or without a 'variable \\in' prefix or \\left/\\right) match exactly when they denote the same set of real numbers. "
     "A different endpoint, a different openness at any endpoint, a missing component, or reversed endpoints is never accepted (two identical writings excepted; a single interval may also match as the ordered pair of its endpoints, see C06).",
     ["inputs"], "every pair of interval expressions",
     "Four interval pairs; no unions, no intersections, no half-open mismatch, no overlapping components.",
     [NO, EV], [("interval reading", NO + ":_str_to_interval"), ("set comparison", EV + ":is_equiv_possible_intervals")], ["is_equiv"])

prop("C08", "Matrices match by shape and entries across all their notations",
     "Two matrices (in matrix, pmatrix, bmatrix, vmatrix, array or cases environments or as nested lists, with single or doubled backslashes) match exactly when they have the same numbers of rows and columns and equal entries in every position; a row vector and a column vector with the same entries match each other. "
     "A transposed, reshaped, truncated or extended matrix, or one differing in a single entry, is rejected.",
     ["inputs"], "every pair of matrices and every pair of notations",
     "Five positive examples and no rejection are sampled.",
     [NO, EV, PA], [("matrix splitting", NO + ":split_matrix"), ("backslash normalisation", NO + ":_str_matrix_normalize"), ("comparison", EV + ":is_equiv_possible_matrix")], ["is_equiv"])

prop("C09", "Equations, inequalities and definitions match by their mathematical form",
     "Two equations whose left side is not a lone symbol or function application match exactly when left minus right agrees up to sign; a definition (symbol or f(x) on the left) is compared by its right side alone and also matches the bare right side. "
     "Two inequalities match exactly when both are strict or both non-strict and they coincide after orienting them the same way with everything moved to one side; two not-equal relations match exactly when their two sides match as an unordered pair, and relations of different kinds never match (a definition against an equation that has the same right side is left open).",
     ["inputs"], "every pair of relations over polynomials",
     "Two rejected equations and two accepted functions are sampled; no inequality, no flipped relation.",
     [PA, L2], [("classification", PA + ":_get_sympy_type"), ("orientation", PA + ":_ineq_to_expr, _uneq_to_set"), ("comparison", PA + ":_are_equal_latex_sympy")], ["is_equiv", "are_equal_under_sympy"])

prop("C10", "Symbolic expressions match exactly when they denote the same function",
     "Two polynomial or rational expressions in the same letters are judged equal, however they are expanded, factored, reordered, nested or spelled, exactly when they are the same function; changing one integer coefficient, exponent, sign or variable makes them unequal. "
     "The verdict is the same on every run although numeric sampling is random.",
     ["inputs", "histories"], "every pair of polynomial/rational expressions and every random draw",
     "Six accepted identities are sampled and almost no near-miss; random sampling is unseeded.",
     [PA, L2], [("expand / simplify / sample cascade", PA + ":_are_equal_latex_sympy, _numerical_equal")], ["is_equiv", "are_equal_under_sympy"])

prop("C11", "Complex answers match by real and imaginary part",
     "Under the Complex answer type two complex numbers match exactly when their real parts match and their imaginary parts match, whichever way the unit is written (i or I, before or after its coefficient, with or without a product sign) and whether or not the number is given in evaluated form. "
     "A number never matches its conjugate, its real part alone, or the number with parts swapped, unless they are the same number.",
     ["inputs"], "every pair of complex numbers and writings",
     "Two accepted pairs are sampled; no rejection and none through the type-aware entry point.",
     [TY, PA], [("unit rewriting", NO + ":_str_to_complex"), ("parts comparison", PA + ":_are_equal_latex_sympy, expr_with_only_i"), ("entry", TY + ":is_equiv_complex")], ["is_equiv_type", "is_equiv"])

prop("C12", "The type-aware entry point widens is_equiv only as the type says",
     "is_equiv_type accepts everything is_equiv accepts, and beyond that only what the named type allows: for Set the elements in any order whatever the outer bracket, for Vector the elements in the same order whatever or without the outer bracket, for Function equality after dropping the 'name =' left side, for Complex the imaginary reading of i. "
     "For any other type, or no type, its verdict is that of is_equiv; an answer type naming several types accepts if one of them does.",
     ["inputs", "configurations"], "every answer pair under every answer type string",
     "is_equiv_type is not exercised by any test.",
     [TY], [("dispatch", TY + ":is_equiv_type"), ("per-type checks", TY + ":is_equiv_set, is_equiv_vector, is_equiv_function, is_equiv_complex")], ["is_equiv_type"])

prop("C13", "Every comparison ends in True or False; identical answers are equal",
     "For any two strings is_equiv returns a bool and never raises or hangs; it returns True when the strings are equal up to surrounding whitespace, or both are None, and False when exactly one is None or the prediction is empty or blank and the ground truth is not. "
     "is_equiv_type obeys the same rule for every type string.",
     ["inputs"], "every pair of token sequences, well formed or not",
     "Only well-formed answers are tested.",
     [EV, NO, PA], [("guards", EV + ":is_equiv"), ("normalisation guard", NO + ":string_normalize"), ("parse guards", PA + ":_sympy_parse, are_equal_under_sympy")], ["is_equiv", "is_equiv_type"])

prop("C14", "A failing or stuck symbolic step degrades to the next one within its time limit",
     "When expansion, simplification or evaluation of an expression raises or exceeds the time limit, the comparison continues with the remaining methods and returns: it accepts only if one of the methods that completed established equality, never because one failed, and it ends within the time limits of the steps it ran. "
     "Afterwards no alarm is pending and the caller's signal handler is as before.",
     ["fault_sequences"], "every assignment of {equal, unequal, raises, hangs} to the symbolic steps of a comparison",
     "No test makes a step fail or exceed its limit.",
     [PA, "math_evaluation/core/constants.py"], [("time limits", PA + ":sympy_simplify, sympy_expand_equal, sympy_abs, sympy_evalf"), ("cascade", PA + ":_are_equal_latex_sympy")], ["are_equal_under_sympy", "is_equiv"],
     [("alarm", "pending SIGALRM timer and handler", "timeout_decorator")])

prop("C15", "A verdict depends only on the two answers",
     "The verdict for a pair of answers is the same whatever was compared or parsed before in the process (settings made through set_real or set_variances and declarations of matrix symbols made by calling the parser directly excepted), in the main thread or in a worker thread, alone or concurrently with other comparisons, under any string-hash seed, and whichever random numbers are drawn.",
     ["histories", "schedules", "configurations"], "every history of earlier calls, every thread interleaving, every hash seed",
     "Tests run each comparison in the main thread with PYTHONHASHSEED=0 and never look at the effect of one call on the next.",
     [EV, PA, L2], [("module-level state", L2 + ":VARIABLE_VALUES, variances, var, frac_type"), ("time limits by signal", PA + ":timeout"), ("set iteration", EV + ":is_equiv, is_equiv_possible_tuple")],
     ["is_equiv", "are_equal_under_sympy"], [("variances/var", "declared matrix symbols", L2), ("VARIABLE_VALUES", "values of the parse in progress", L2)])

prop("C16", "Parsing arithmetic preserves its value",
     "For every expression built from integers, decimals, percentages, single-letter symbols, + - * / (all spellings), \\frac, powers, n-th roots, factorial, absolute value, floor, ceiling, mod, binomials, gcd and lcm of numbers, max, min and grouping, latex2sympy returns an expression whose exact value, after substituting rational values for the symbols, is the value given by the usual precedence and associativity rules (implicit multiplication binds tighter than division; a power of a power is read from the left; arguments of max, min and binomials hold no modulo, and argument lists no thousands comma).",
     ["inputs"], "every arithmetic expression",
     "Tests check isolated constructs, mostly not combined; precedence between constructs is combinatorial.",
     [L2, PS, "latex2sympy/gen/PSParser.py"], [("tree conversion", L2 + ":convert_*")], ["latex2sympy"])

prop("C17", "Alternative spellings parse to the same expression",
     "Replacing one delimiter family by another of the same kind (parentheses, brackets, \\{ \\}, \\lbrace, \\lgroup, \\left...\\right, \\mleft...\\mright; | and \\vert; \\lfloor and \\llcorner; \\lceil and \\ulcorner), one operator spelling by another (* \\times \\cdot; / \\div : ; \\leq \\le \\leqslant; \\neq \\ne !=), \\frac by \\dfrac or \\tfrac, a braced single-character argument by the bare one, or inserting blanks, \\quad, ~, \\, , \\displaystyle or $ between tokens does not change the parsed expression.",
     ["inputs"], "every expression and every choice of spelling at every position",
     "Each spelling is tested in one or two fixed expressions.",
     [L2, PS], [("pre-substitutions", L2 + ":latex2sympy"), ("grammar alternatives", PS)], ["latex2sympy"])

prop("C18", "Named functions map to the intended function with the intended argument",
     "For every supported trigonometric, hyperbolic, inverse, logarithmic, exponential, rounding and root function, in command or \\operatorname form, with or without parentheses or braces, with subscript base and superscript power in either order, the parse is that function applied to exactly the argument written (an unparenthesised argument extends over the following product up to the next function or sum), raised to the power; a power of -1 on a trigonometric function is its inverse; log without base is base 10 and ln is natural.",
     ["inputs"], "every function, spelling, argument, base and power",
     "A few functions are tested with a few arguments; the table of names by forms is not.",
     [L2, PS], [("function conversion", L2 + ":convert_func, handle_exp, handle_floor, handle_ceil")], ["latex2sympy"])

prop("C19", "Calculus notation is read with the right variable, bounds, order and direction",
     "Derivatives (d/dx and \\partial, operator and fraction form, \\mathrm{d} included), definite and indefinite integrals (differential at the end or in a numerator), sums, products, one- and two-sided limits, evaluation bars and permutation symbols over polynomials (bound variables not bound again inside) denote the mathematically correct object: their exact value or closed form equals that computed from the polynomial, with the named variable and bounds.",
     ["inputs"], "every polynomial, variable, bound and form",
     "Few calculus expressions are tested and their values are not.",
     [L2, PS], [("calculus conversion", L2 + ":handle_integral, handle_sum_or_prod, handle_limit, convert_frac, convert_postfix_list, do_subs")], ["latex2sympy(...).doit()"])

prop("C20", "Matrix expressions evaluate to the right matrix or scalar",
     "For matrices with rational or symbolic entries, sums, differences, negation, products, scalar multiples and quotients, integer powers, transposes, determinants, trace, rank, norm, rref, hstack, vstack, rows, cols, eye, zeros, ones, diag and sequences of elementary row and column operations on \\xrightarrow (lower list after upper list) evaluate to the exact mathematical result, whichever matrix environment is used (an arrow follows its environment directly).",
     ["inputs"], "every matrix expression over small matrices and every sequence of elementary operations",
     "Two linear-algebra expressions are tested; elementary operations are documented and untested.",
     [L2, PS], [("matrix conversion", L2 + ":convert_matrix, convert_elementary_transform, mat_mul_flat, mat_add_flat, convert_func")], ["latex2sympy(...).doit()"])

prop("C21", "Identifiers keep their identity",
     "Two occurrences of an identifier (a letter, Greek or other symbol command, accented base, subscripted or \\mathit name) parse to the same symbol exactly when they are the same identifier up to blanks, bracing of one-character subscripts, order of subscript and superscript, and bar/overline, vec/overrightarrow, tilde/widetilde; juxtaposed letters are a product of symbols; letters are never confused with constants (\\pi, e, I, \\infty) or with functions applied to arguments: a letter directly followed by a parenthesised single atom or comma-separated list is an application, by any other group a product. (The letters d before a letter and e, and function names, are not identifiers.)",
     ["inputs"], "every pair of identifiers",
     "Isolated identifiers are tested one by one.",
     [L2, PS], [("symbol construction", L2 + ":convert_atom")], ["latex2sympy"])

prop("C22", "Parser settings and variable values apply to exactly the calls they are given to",
     "A call's supplied variable values are substituted for every \\variable{name} with that name anywhere in that call's text (nested functions, fractions, derivatives, integrals; with \\% as one hundredth) and in no other call; a variable without a value is a symbol distinct from the ordinary letter; a matrix symbol declared with \\in stays declared until set_variances is called; the real-number assumption applies to exactly the calls made while it is set; and a failed call leaves all settings unchanged.",
     ["histories", "schedules"], "every sequence (and interleaving) of successful and failing calls and setting changes",
     "Tests use one call per setting and no values inside nested constructs, and never a failing call followed by another.",
     [L2], [("globals", L2 + ":VARIABLE_VALUES, is_real, variances, var")], ["latex2sympy", "set_real", "set_variances"],
     [("VARIABLE_VALUES", "values for the current call", L2), ("is_real", "assumption for new symbols", L2)])

prop("C23", "Malformed input is refused, never silently truncated",
     "latex2sympy either raises an exception or returns an expression accounting for the whole input: deleting a required operand or delimiter from a well-formed expression, leaving a delimiter unbalanced or mismatched, or appending stray tokens after a complete expression (a superfluous closing parenthesis at the very end, and a trailing comma in the arguments of a function application, excepted) raises instead of returning the value of a prefix or of something else.",
     ["inputs"], "every well-formed expression and every single-token corruption of it that leaves the language",
     "About thirty fixed bad strings are tested.",
     [L2, PS], [("error listener", L2 + ":MathErrorListener"), ("start rule", PS + ":math")], ["latex2sympy"])

prop("C24", "Relations and lists parse to the written relation",
     "A relation parses to the relation of the written kind (equality, strict or non-strict inequality in the written direction, not-equal) between exactly its left and right sides in that order; a comma or semicolon separated list, bare or in brackets or \\{ \\}, parses to the list of its elements in order, each element being an expression or a single relation (no lists in lists; three-digit integers after a comma may be read as digit groups).",
     ["inputs"], "every relation and list",
     "Few relations and no lists are tested for content.",
     [L2, PS], [("relations", L2 + ":convert_relation"), ("lists", L2 + ":latex2sympy")], ["latex2sympy"])

prop("C25", "Answer-type queries retry until the first parsable reply, and no further",
     "get_llm_type asks the model with the prompt of the chosen type containing the question and the answer wrapped in exactly one pair of dollar signs, repeats the same request after a failing call or a reply without a type, stops at the first reply with a type and returns that type text, makes at most max_try calls, returns None when all fail, and raises without calling the model for an unknown prompt type.",
     ["fault_sequences", "histories"], "every sequence of model replies and failures, every max_try, every dollar placement",
     "The llms package is not exercised by any test.",
     [LL, "math_evaluation/llms/prompts.py"], [("retry loop", LL + ":get_llm_type")], ["get_llm_type and the calls the model callable receives"],
     [("retry", "failed attempts so far", LL + ":get_llm_type")])

prop("C26", "The created model callable sends what it is given to the chosen provider",
     "create_llm for openai or tongyi returns a callable that sends exactly the given messages to that provider under the requested model name and temperature 0.0001, authenticates with that provider's environment key (as it is when the callable is created, or when it is called), returns the text of the first choice, and passes provider errors on; any other provider name raises without contacting anyone.",
     ["configurations", "histories"], "every provider, model name, key presence, message list and interleaving of several callables",
     "No test creates a model callable.",
     [LL], [("factory", LL + ":create_llm, call_openai, call_tongyi")], ["create_llm with stand-in provider modules"])

prop("C27", "With several accepted ground truths, matching any one of them is correct",
     "is_equiv_MATH accepts a prediction exactly when it is equivalent to the ground truth or, for a list of ground truths, to at least one of them, and the benchmark script's reported accuracy is exactly the fraction of problems whose boxed prediction is accepted, taking the content of the last (closed) \\boxed in the final output and counting a missing box as wrong; the questions of a benchmark are distinct.",
     ["inputs", "histories"], "every list of alternatives and every benchmark file",
     "Neither function is tested.",
     ["demo.py", "example_tora_eval.py"], [("alternatives", "demo.py:is_equiv_MATH"), ("boxed extraction", "example_tora_eval.py:extract_boxed"), ("accuracy", "example_tora_eval.py")], ["demo.is_equiv_MATH", "example_tora_eval.py run on a benchmark"])

prop("C28", "Printing an expression as LaTeX keeps its meaning",
     "For real expressions (no imaginary unit, no directly nested integrals, sums or products, at most one integral, derivatives of first order, no application of an undefined function to a compound argument, no name directly followed by a parenthesised factor) latex and latex2latex produce text that parses back to a mathematically equal result, in the fraction style (\\frac, \\dfrac or \\tfrac) of the most recently parsed text containing one, with bmatrix environments; the ASCII printer writes limits, integrals, sums, products, derivatives, factorials, absolute values, roots and powers with each operand in its place.",
     ["inputs", "histories"], "every printable expression, after every history of parsed fraction styles",
     "Printing is not tested at all.",
     [L2, "latex2sympy/asciimath_printer.py"], [("printing", L2 + ":latex, latex2latex"), ("ascii", "latex2sympy/asciimath_printer.py:AsciiMathPrinter")], ["latex", "latex2latex", "AsciiMathPrinter"],
     [("frac_type", "fraction style of the last parse", L2)])

prop("C29", "Comparing answers has no effect outside the comparison",
     "Whatever text the answers contain, a comparison never executes code written in them: it creates, changes or removes no file, starts no process, imports no module named in the text, prints nothing the text asks for, and changes no global of the caller and no setting of the process.",
     ["inputs"], "every answer text, including ones written as program code, at every nesting position",
     "All tested answers are mathematics.",
     [PA], [("generic expression parser", PA + ":_sympy_parse")], ["process and file-system effects during is_equiv"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
