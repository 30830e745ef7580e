From 45238d60a5d5aa38ee640cb6b57a71b22f26da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 01/54] fix: Vector and Set checks return the verdict, not a
 truthy tuple; Vector ignores the outer bracket

---
 math_evaluation/core/type_evaluations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index fb984dd..19b727f 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -102,9 +102,8 @@ def is_equiv_vector(
     pre_normalized = string_normalize(prediction)
 
     def preprocess(normalized: str) -> str:
-        if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")):
-            return normalized
-        elif normalized.startswith("{") and normalized.endswith("}"):
+        if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")) \
+            or (normalized.startswith("{") and normalized.endswith("}")):
             normalized = "[" + normalized[1:-1] + "]"
         else:
             normalized = "[" + normalized + "]"
@@ -113,7 +112,7 @@ def is_equiv_vector(
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
     try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)
+        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
 
@@ -134,7 +133,7 @@ def is_equiv_set(
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
     try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)
+        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
 
-- 
2.43.0


From 2613a5b9a2e1c85a9a34979ede7d6850733c786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 02/54] fix: is_equiv_type works without an answer type

---
 math_evaluation/core/type_evaluations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index 19b727f..86d9081 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -160,7 +160,7 @@ def is_equiv_type(
     }
     is_equal = False
     for type_name, check_func in equiv_checks.items():
-        if re.search(type_name, answer_type): 
+        if answer_type and re.search(type_name, answer_type): 
             if check_func(ground_truth, prediction):
                 is_equal = True
                 break 
-- 
2.43.0


From ed13ab457c5ebe2e38ae1d7f8da967449c859f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 03/54] fix: compare both sides of a not-equal relation as sets

---
 math_evaluation/core/latex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 53f435e..dcc075e 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -341,7 +341,7 @@ def _are_equal_latex_sympy(
             # must be `Unequality` with rel_op !=
             # A != B, A1 != B1, we compare two sets: {A, B} and {A1, B1}
             gt_latex_sympy = _uneq_to_set(gt_latex_sympy)
-            gt_latex_sympy = _uneq_to_set(gt_latex_sympy)
+            gv_latex_sympy = _uneq_to_set(gv_latex_sympy)
             gt_type = _get_sympy_type(gt_latex_sympy)
             gv_type = _get_sympy_type(gv_latex_sympy)
             return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, gt_type, gv_type)
-- 
2.43.0


From 342183b5e0bd6820071b0ea4f32a8338caaf07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 04/54] fix: a type-specific check that cannot handle its input
 falls back to is_equiv

---
 math_evaluation/core/type_evaluations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index 86d9081..1cd9f31 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -161,8 +161,12 @@ def is_equiv_type(
     is_equal = False
     for type_name, check_func in equiv_checks.items():
         if answer_type and re.search(type_name, answer_type): 
-            if check_func(ground_truth, prediction):
-                is_equal = True
+            try:
+                is_equal = check_func(ground_truth, prediction)
+            except Exception:
+                # e.g., None, or an answer with several readings such as 10%
+                is_equal = False
+            if is_equal:
                 break 
         else:
             continue
-- 
2.43.0


From 355b674ad1b9d22691eaad82a08641274f7eeb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 05/54] fix: match unordered answers by a one-to-one pairing,
 independent of element order

---
 math_evaluation/core/evaluations.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 83ab1fd..239dde7 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -127,16 +127,20 @@ def is_equiv_possible_tuple(
                 return False, splitted
         return True, splitted
     elif isinstance(ground_truth_elems, set):
-        gt_found_matches = [False] * len(ground_truth_elems)
-        gv_found_matches = [False] * len(given_elems)
-        for i, ground_truth_elem in enumerate(ground_truth_elems):
-            if not gt_found_matches[i]:
-                for j, given_elem in enumerate(given_elems):
-                    if not gv_found_matches[j] and is_equiv(ground_truth_elem, given_elem, verbose):
-                        gt_found_matches[i] = True
-                        gv_found_matches[j] = True
-                        break
-        return all(gt_found_matches), splitted
+        # within tolerance an element can match several others, so look for a one-to-one pairing
+        ground_truth_elems, given_elems = list(ground_truth_elems), list(given_elems)
+        matched_by = {}     # index of given element -> index of ground truth element
+
+        def find_match(i: int, tried: set) -> bool:
+            for j, given_elem in enumerate(given_elems):
+                if j not in tried and is_equiv(ground_truth_elems[i], given_elem, verbose):
+                    tried.add(j)
+                    if j not in matched_by or find_match(matched_by[j], tried):
+                        matched_by[j] = i
+                        return True
+            return False
+
+        return all(find_match(i, set()) for i in range(len(ground_truth_elems))), splitted
 
     return is_correct, splitted
 
-- 
2.43.0


From e06773ab5dec25472445c5cd7ccecb12d00026ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 06/54] fix: only join digit groups that form one
 thousands-separated number

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 50742d0..8a9df5b 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -185,7 +185,7 @@ def _str_to_decimal(digits: str, base: str):
 
 
 def _strip_properly_formatted_commas(expr: str):
-    expr = re.sub(r"\d{1,3}(?:, ?\d{3})+", lambda x: x.group(0).replace(',', ''), expr)
+    expr = re.sub(r"(?<![\d.])\d{1,3}(?:, ?\d{3})+(?!\d)", lambda x: x.group(0).replace(',', ''), expr)
     return expr
 
 
-- 
2.43.0


From 275838c7511a0efb50f33bcaea6d880e30328ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 07/54] fix: the fraction of a negative mixed number is
 negative

---
 math_evaluation/core/latex_normalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 8a9df5b..5d3ca9c 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -171,6 +171,8 @@ def _inject_implicit_mixed_number(expr: str):
         r"(\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
     ]
     for regex in regex_cands:
+        # the fraction of a negative mixed number is negative as well: -7 3/4 => -7-3/4
+        expr = re.sub(r"-" + regex, r"-\1-\2", expr)
         pattern = re.compile(regex)
         expr = pattern.sub(r"\1+\2", expr)
     return expr
-- 
2.43.0


From 53338be8a338b07acea59f14ff19720ff33f6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 08/54] fix: keep every digit of a number in e-notation

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 5d3ca9c..b4460e1 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -425,8 +425,8 @@ def float_to_latex_scientific(expr: str) -> str:
     if _is_float(expr):
         num = float(expr)
         if num != 0:
-            # float to sci num, x.xxxe+02
-            sci_num = '{:e}'.format(num)
+            # keep every digit, x.xxxe+02
+            sci_num = expr.strip()
             # computable latex, e -> *10
             latex_sci_num = sci_num.replace('e', '*10^{') + '}'
             return latex_sci_num
-- 
2.43.0


From 0f988374ffa91fbe944c8f22d51090be24553312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 09/54] fix: an empty intermediate intersection of intervals
 stays empty

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index b4460e1..333e55c 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -128,7 +128,7 @@ def _str_to_interval(x: str):
         x = x.split('⋃') if '⋃' in x else x.split('\\cup')
         _interval = sympy.EmptySet
         for or_interval in x:
-            _or_interval = sympy.EmptySet
+            _or_interval = None
             for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
                 and_interval = and_interval.strip()
                 int_start, int_end = and_interval.split(',')
@@ -147,7 +147,7 @@ def _str_to_interval(x: str):
                     raise Exception('Illegal Interval range')
                 # define sympy Interval
                 temp_int = sympy.Interval(int_start, int_end, left_open='(' in and_interval, right_open=')' in and_interval)
-                if _or_interval.is_empty:
+                if _or_interval is None:
                     _or_interval = temp_int
                 else:
                     _or_interval = _or_interval.intersect(temp_int)
-- 
2.43.0


From 598cbd10ad427814b6091affd11bd709492ebcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 10/54] fix: removing 'x \in' leaves x\infty and x\int alone

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 333e55c..c5db8a9 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -326,8 +326,8 @@ def _string_normalize(expr: str):
     expr = re.sub(r"\\right\)", ")", expr)
     expr = re.sub(r"\\right\]", "]", expr)
 
-    # remove x \in
-    expr = re.sub(r"[a-zA-Z]+\s*\\in", "", expr)
+    # remove x \in, but not x \infty or x \int
+    expr = re.sub(r"[a-zA-Z]+\s*\\in(?![a-zA-Z])", "", expr)
 
     # units in \\text{xxx}
     # Special case for time, transform to list, e.g., "08:30 \\text{pm}" -> "[8, 30]"
-- 
2.43.0


From f6138ffbad714f969708561a1550ddca6681e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 11/54] fix: comparisons off the main thread no longer fail in
 every symbolic step

---
 math_evaluation/core/latex_parser.py | 10 +++----
 math_evaluation/core/time_limit.py   | 39 ++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 5 deletions(-)
 create mode 100644 math_evaluation/core/time_limit.py

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index dcc075e..01e0023 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -10,9 +10,9 @@ from sympy.parsing import sympy_parser
 from sympy import Symbol, pi, Expr, Matrix, I
 from sympy.core.relational import Equality, Relational
 from latex2sympy.latex2sympy2 import latex2sympy
-from timeout_decorator import timeout
 
 from .constants import *
+from .time_limit import time_limit
 
 
 BAD_SUBSTRINGS = ["^{", "^("]
@@ -180,7 +180,7 @@ def expr_with_only_i(latex_sympy):
 
 def sympy_simplify(sympy_expr: Expr):
 
-    @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_simplify", seconds=TIMEOUT_SECONDS))
+    @time_limit(TIMEOUT_SECONDS, "sympy_simplify")
     def _sympy_simplify(sympy_expr):
         if sympy_expr.is_number:
             return sympy_expr.evalf()
@@ -195,7 +195,7 @@ def sympy_simplify(sympy_expr: Expr):
 
 def sympy_expand_equal(gt_sympy_expr: Expr, gv_sympy_expr: Expr) -> bool:
 
-    @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_expand_equal", seconds=TIMEOUT_SECONDS))
+    @time_limit(TIMEOUT_SECONDS, "sympy_expand_equal")
     def _sympy_expand_equal(gt_sympy_expr, gv_sympy_expr):
         return bool(gt_sympy_expr.expand(trig=True) == gv_sympy_expr.expand(trig=True))
     
@@ -208,7 +208,7 @@ def sympy_expand_equal(gt_sympy_expr: Expr, gv_sympy_expr: Expr) -> bool:
 
 def sympy_abs(sympy_expr: Expr):
 
-    @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_abs", seconds=TIMEOUT_SECONDS))
+    @time_limit(TIMEOUT_SECONDS, "sympy_abs")
     def _sympy_abs(sympy_expr):
         # return sympy.Abs(sympy_expr)
         return abs(sympy_expr) 
@@ -225,7 +225,7 @@ def sympy_evalf(
     symbols_: Optional[Dict[Symbol, float]] = None,
 ) -> Optional[float]:
 
-    @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_evalf", seconds=TIMEOUT_SECONDS))
+    @time_limit(TIMEOUT_SECONDS, "sympy_evalf")
     def _sympy_evalf(sympy_expr, symbols_=None):
         return sympy_expr.evalf(subs=symbols_)
         
diff --git a/math_evaluation/core/time_limit.py b/math_evaluation/core/time_limit.py
new file mode 100644
index 0000000..f04a966
--- /dev/null
+++ b/math_evaluation/core/time_limit.py
@@ -0,0 +1,39 @@
+"""limit the time of one step of a comparison"""
+import ctypes
+import threading
+
+from timeout_decorator import timeout
+
+from .constants import TIMEOUT_MESSAGE
+
+
+def time_limit(seconds: float, func_name: str):
+    """Decorator which raises an exception when the function takes longer than `seconds`."""
+    message = TIMEOUT_MESSAGE.format(func_name=func_name, seconds=seconds)
+    if threading.current_thread() is threading.main_thread():
+        return timeout(seconds, exception_message=message)
+
+    # signals only work in the main thread, elsewhere wait for a helper thread
+    def decorate(function):
+        def new_function(*args):
+            outcome = {}
+
+            def run():
+                try:
+                    outcome["value"] = function(*args)
+                except BaseException as e:
+                    outcome["exception"] = e
+
+            helper = threading.Thread(target=run, daemon=True)
+            helper.start()
+            helper.join(seconds)
+            if "value" in outcome:
+                return outcome["value"]
+            if "exception" in outcome:
+                raise outcome["exception"]
+            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(helper.ident), ctypes.py_object(TimeoutError))
+            raise TimeoutError(message)
+
+        return new_function
+
+    return decorate
-- 
2.43.0


From edc34ccf9e3a8142ebc7e50c797276ee36bacd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 12/54] fix: parsing an answer is subject to the time limit as
 well

---
 math_evaluation/core/latex_normalize.py |  5 +++--
 math_evaluation/core/latex_parser.py    |  9 +++++----
 math_evaluation/core/time_limit.py      | 11 ++++++++++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index c5db8a9..b101e5d 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -7,6 +7,7 @@ from typing import Optional
 from latex2sympy.latex2sympy2 import latex2sympy
 
 from .constants import *
+from .time_limit import parse_in_time
 
 
 def _parse_latex(expr: str) -> str:
@@ -132,8 +133,8 @@ def _str_to_interval(x: str):
             for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
                 and_interval = and_interval.strip()
                 int_start, int_end = and_interval.split(',')
-                int_start = latex2sympy(int_start.replace('(', '').replace('[', ''))
-                int_end = latex2sympy(int_end.replace(')', '').replace(']', ''))
+                int_start = parse_in_time(latex2sympy, int_start.replace('(', '').replace('[', ''))
+                int_end = parse_in_time(latex2sympy, int_end.replace(')', '').replace(']', ''))
                 # check validation
                 if int_start.is_number:
                     int_start = int_start.evalf()
diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 01e0023..52f4588 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -12,7 +12,7 @@ from sympy.core.relational import Equality, Relational
 from latex2sympy.latex2sympy2 import latex2sympy
 
 from .constants import *
-from .time_limit import time_limit
+from .time_limit import time_limit, parse_in_time
 
 
 BAD_SUBSTRINGS = ["^{", "^("]
@@ -39,20 +39,21 @@ def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     
     """
     try:
-        l2s_expr = latex2sympy(expr)
+        l2s_expr = parse_in_time(latex2sympy, expr)
     except:
         l2s_expr = None
 
     sp_expr = None
     if l2s_expr is None:
         try:
-            sp_expr = parse_latex(expr).subs({Symbol('pi'): pi})
+            sp_expr = parse_in_time(parse_latex, expr).subs({Symbol('pi'): pi})
         except:
             pass
     
     py_expr = expr.replace("^", "**")
     try:
-        sp_or_py_expr = sympy_parser.parse_expr(
+        sp_or_py_expr = parse_in_time(
+            sympy_parser.parse_expr,
             py_expr,
             transformations=(
                 sympy_parser.standard_transformations
diff --git a/math_evaluation/core/time_limit.py b/math_evaluation/core/time_limit.py
index f04a966..5ef3c3a 100644
--- a/math_evaluation/core/time_limit.py
+++ b/math_evaluation/core/time_limit.py
@@ -4,7 +4,7 @@ import threading
 
 from timeout_decorator import timeout
 
-from .constants import TIMEOUT_MESSAGE
+from .constants import TIMEOUT_MESSAGE, TIMEOUT_SECONDS
 
 
 def time_limit(seconds: float, func_name: str):
@@ -37,3 +37,12 @@ def time_limit(seconds: float, func_name: str):
         return new_function
 
     return decorate
+
+
+def parse_in_time(parse, *args, **kwargs):
+    """Parsing evaluates numbers: 9^9^9 or a huge binomial would take forever."""
+    @time_limit(TIMEOUT_SECONDS, "parse")
+    def _parse():
+        return parse(*args, **kwargs)
+
+    return _parse()
-- 
2.43.0


From b6ffb759df8e889d6de43456e7db5f0001fbb52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 13/54] fix: an answer is never executed as python code

---
 math_evaluation/core/latex_parser.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 52f4588..0045df6 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -1,7 +1,10 @@
 """match in sympy"""
+import inspect
+import io
 import random
 import re
 import sympy
+import tokenize
 
 from typing import Tuple, Any, Dict, Optional
 
@@ -19,6 +22,29 @@ BAD_SUBSTRINGS = ["^{", "^("]
 BAD_REGEXES = ["\^[0-9]+\^", "\^[0-9][0-9]+"]
 
 
+def _is_mathematical(obj: Any) -> bool:
+    if isinstance(obj, type):
+        return issubclass(obj, (sympy.Basic, sympy.MatrixBase))
+    return isinstance(obj, sympy.Basic) or (inspect.isfunction(obj) and obj.__module__.startswith((
+        "sympy.functions.", "sympy.core.function", "sympy.core.power", "sympy.core.mul", "sympy.simplify.", "sympy.polys.",
+        "sympy.ntheory.", "sympy.matrices.", "sympy.concrete.", "sympy.integrals.", "sympy.series.", "sympy.calculus.",
+        "sympy.solvers.", "sympy.sets.",
+    )))
+
+
+# parse_expr evaluates an answer as python code, which must not reach anything but mathematics
+PARSE_EXPR_GLOBALS = {name: obj for name, obj in vars(sympy).items() if _is_mathematical(obj)}
+PARSE_EXPR_GLOBALS.update({"abs": abs, "pow": pow, "round": round, "sum": sum, "max": sympy.Max, "min": sympy.Min})
+PARSE_EXPR_GLOBALS["__builtins__"] = {}
+
+
+def _safe_parse_expr(expr: str, transformations):
+    for token in tokenize.generate_tokens(io.StringIO(expr.strip()).readline):
+        if token.string == "." or token.string.startswith("__") or "'" in token.string or '"' in token.string:
+            raise ValueError("not a mathematical expression")
+    return sympy_parser.parse_expr(expr, transformations=transformations, global_dict=dict(PARSE_EXPR_GLOBALS))
+
+
 def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     """Parses an latex expression with sympy
 
@@ -53,7 +79,7 @@ def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     py_expr = expr.replace("^", "**")
     try:
         sp_or_py_expr = parse_in_time(
-            sympy_parser.parse_expr,
+            _safe_parse_expr,
             py_expr,
             transformations=(
                 sympy_parser.standard_transformations
-- 
2.43.0


From 47f15dc9e9f30a1c3cc4437cd80d863bb4ef2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 14/54] fix: variable values reach derivatives, other threads'
 calls do not see them

---
 latex2sympy/latex2sympy2.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index bc076fd..ea2cbc0 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -18,6 +18,7 @@ from sympy.printing.str import StrPrinter
 from sympy.parsing.sympy_parser import parse_expr
 
 import hashlib
+import threading
 
 is_real = None
 
@@ -26,7 +27,12 @@ frac_type = r'\frac'
 variances = {}
 var = {}
 
-VARIABLE_VALUES = {}
+class VariableValues(threading.local):
+    # values of the call in progress; calls in other threads have their own
+    values = {}
+
+
+VARIABLE_VALUES = VariableValues()
 
 
 def set_real(value):
@@ -70,12 +76,14 @@ def latex2sympy(sympy: str, variable_values={}):
     sympy = sympy.replace(r'$', ' ', -1)
 
     # variable values
-    global VARIABLE_VALUES
-    if len(variable_values) > 0:
-        VARIABLE_VALUES = variable_values
-    else:
-        VARIABLE_VALUES = {}
+    VARIABLE_VALUES.values = variable_values
+    try:
+        return convert_text(sympy)
+    finally:
+        VARIABLE_VALUES.values = {}
+
 
+def convert_text(sympy: str):
     # setup listener
     matherror = MathErrorListener(sympy)
 
@@ -706,14 +714,15 @@ def convert_atom(atom):
         symbol_name = name + hash
 
         # replace the variable for already known variable values
-        if name in VARIABLE_VALUES:
+        if name in VARIABLE_VALUES.values:
+            value = VARIABLE_VALUES.values[name]
             # if a sympy class
-            if VARIABLE_VALUES[name].__module__.startswith("sympy"):
-                symbol = VARIABLE_VALUES[name]
+            if type(value).__module__.startswith("sympy"):
+                symbol = value
 
             # if NOT a sympy class
             else:
-                symbol = parse_expr(str(VARIABLE_VALUES[name]))
+                symbol = parse_expr(str(value))
         else:
             symbol = sympy.Symbol(symbol_name, real=is_real)
 
@@ -776,9 +785,9 @@ def convert_frac(frac):
 
             expr_top = None
             if diff_op and upper_text.startswith('d'):
-                expr_top = latex2sympy(upper_text[1:])
+                expr_top = convert_text(upper_text[1:])
             elif partial_op and frac.upper.start.text == '\\partial':
-                expr_top = latex2sympy(upper_text[len('\\partial'):])
+                expr_top = convert_text(upper_text[len('\\partial'):])
             if expr_top:
                 return sympy.Derivative(expr_top, wrt)
 
@@ -904,7 +913,7 @@ def convert_func(func):
         else:
             args = func.func_multi_arg_noparens().split(",")
 
-        args = list(map(lambda arg: latex2sympy(arg, VARIABLE_VALUES), args))
+        args = list(map(lambda arg: convert_text(arg), args))
         name = func.func_normal_multi_arg().start.text[1:]
 
         if name == "operatorname":
@@ -952,7 +961,7 @@ def convert_func(func):
         args = func.func_common_args().getText().split(",")
         if args[-1] == '':
             args = args[:-1]
-        args = [latex2sympy(arg, VARIABLE_VALUES) for arg in args]
+        args = [convert_text(arg) for arg in args]
         # supexpr
         if func.supexpr():
             if func.supexpr().expr():
-- 
2.43.0


From ca000fa2d5711266668ac8dc2d389a8d52e9afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 15/54] fix: negation of a matrix

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index ea2cbc0..aa43166 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -455,7 +455,7 @@ def convert_unary(unary):
     elif unary.SUB():
         tmp_convert_nested_unary = convert_unary(nested_unary)
         if tmp_convert_nested_unary.is_Matrix:
-            return mat_mul_flat(-1, tmp_convert_nested_unary, evaluate=False)
+            return mat_mul_flat(-1, tmp_convert_nested_unary)
         else:
             if tmp_convert_nested_unary.func.is_Number:
                 return -tmp_convert_nested_unary
-- 
2.43.0


From 9965f36dcc0ac9d176a6a19f8dce97405e706b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 16/54] fix: row and column numbers of elementary operations

---
 latex2sympy/latex2sympy2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index aa43166..f6f5ed4 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -215,7 +215,7 @@ def convert_elementary_transform(matrix, transform):
         transform_scale = transform.transform_scale()
         transform_atom = transform_scale.transform_atom()
         k = None
-        num = int(transform_atom.NUMBER().getText()) - 1
+        num = int(transform_atom.number().getText()) - 1
         if transform_scale.expr():
             k = convert_expr(transform_scale.expr())
         elif transform_scale.group():
@@ -234,8 +234,8 @@ def convert_elementary_transform(matrix, transform):
     elif transform.transform_swap():
         first_atom = transform.transform_swap().transform_atom()[0]
         second_atom = transform.transform_swap().transform_atom()[1]
-        first_num = int(first_atom.NUMBER().getText()) - 1
-        second_num = int(second_atom.NUMBER().getText()) - 1
+        first_num = int(first_atom.number().getText()) - 1
+        second_num = int(second_atom.number().getText()) - 1
         if first_atom.LETTER_NO_E().getText() != second_atom.LETTER_NO_E().getText():
             raise Exception('Row and col don\'s match')
         elif first_atom.LETTER_NO_E().getText() == 'r':
@@ -258,8 +258,8 @@ def convert_elementary_transform(matrix, transform):
             k = -1
         else:
             k = 1
-        first_num = int(first_atom.NUMBER().getText()) - 1
-        second_num = int(second_atom.NUMBER().getText()) - 1
+        first_num = int(first_atom.number().getText()) - 1
+        second_num = int(second_atom.number().getText()) - 1
         if first_atom.LETTER_NO_E().getText() != second_atom.LETTER_NO_E().getText():
             raise Exception('Row and col don\'s match')
         elif first_atom.LETTER_NO_E().getText() == 'r':
-- 
2.43.0


From a267ee35294b3894c243ff75aa5ac7cb2e2731d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 17/54] fix: lists of rows, columns and vectors are results,
 not derivatives

---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index f6f5ed4..8b862c2 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -484,8 +484,9 @@ def convert_postfix_list(arr, i=0):
                 return mul_flat(res, rh)
     elif isinstance(res, (tuple, dict)):
         return res
+    elif isinstance(res, list) and not (len(res) == 1 and isinstance(res[0], sympy.Symbol)):
+        return res
     else:  # must be derivative
-        assert diff_op or partial_op
         wrt = res[0]
         if i == len(arr) - 1:
             raise Exception("Expected expression for derivative")
@@ -753,7 +754,6 @@ def rule2text(ctx):
 
 
 def convert_frac(frac):
-    global diff_op, partial_op
     diff_op, partial_op = False, False
     if frac.lower and frac.upper:
         lower_itv = frac.lower.getSourceInterval()
-- 
2.43.0


From c58a8ad65710af4ef65b7869b169145163c3d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 18/54] fix: split function arguments at top-level commas only

---
 latex2sympy/latex2sympy2.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 8b862c2..3d91cd2 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -811,6 +811,21 @@ def convert_binom(binom):
     return sympy.binomial(expr_top, expr_bot)
 
 
+def split_args(text):
+    # split at the commas that are not inside brackets
+    args, depth = [''], 0
+    for c in text:
+        if c in '([{':
+            depth += 1
+        elif c in ')]}':
+            depth -= 1
+        if c == ',' and depth == 0:
+            args.append('')
+        else:
+            args[-1] += c
+    return args
+
+
 def convert_func(func):
     if func.func_normal_single_arg():
         if func.L_PAREN():  # function called with parenthesis
@@ -909,7 +924,7 @@ def convert_func(func):
 
     elif func.func_normal_multi_arg():
         if func.L_PAREN():  # function called with parenthesis
-            args = func.func_multi_arg().getText().split(",")
+            args = split_args(func.func_multi_arg().getText())
         else:
             args = func.func_multi_arg_noparens().split(",")
 
@@ -958,7 +973,7 @@ def convert_func(func):
         # define a function
         f = sympy.Function(func.atom_expr_no_supexpr().getText())
         # args
-        args = func.func_common_args().getText().split(",")
+        args = split_args(func.func_common_args().getText())
         if args[-1] == '':
             args = args[:-1]
         args = [convert_text(arg) for arg in args]
-- 
2.43.0


From cca15330cf82b715f67674d4743f4698fe424af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 19/54] fix: a function raised to the power zero

---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 3d91cd2..2d38c65 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -917,7 +917,7 @@ def convert_func(func):
                 should_pow = False
             expr = getattr(sympy.functions, name)(arg, evaluate=False)
 
-        if func_pow and should_pow:
+        if func_pow is not None and should_pow:
             expr = sympy.Pow(expr, func_pow, evaluate=False)
 
         return expr
@@ -965,7 +965,7 @@ def convert_func(func):
             else:
                 func_pow = convert_atom(func.supexpr().atom())
 
-        if func_pow and should_pow:
+        if func_pow is not None and should_pow:
             expr = sympy.Pow(expr, func_pow, evaluate=False)
 
         return expr
-- 
2.43.0


From c3866e7850dff5b2ff95d3c5ef5671b4c5e678e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 20/54] fix: refuse what follows a complete expression

---
 latex2sympy/latex2sympy2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 2d38c65..a01def2 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1,7 +1,7 @@
 import sympy
 import re
 from sympy import matrix_symbols, simplify, factor, expand, apart, expand_trig
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, Token
 from antlr4.error.ErrorListener import ErrorListener
 
 try:
@@ -104,6 +104,13 @@ def convert_text(sympy: str):
     return_data = None
     math = parser.math()
 
+    # refuse what follows a complete expression, but for superfluous closing parentheses
+    while tokens.LA(1) == PSParser.R_PAREN:
+        tokens.consume()
+    if tokens.LA(1) != Token.EOF:
+        token = tokens.LT(1)
+        matherror.syntaxError(parser, token, token.line, token.column, "extraneous input", None)
+
     # if a list
     if math.relation_list():
         return_data = []
-- 
2.43.0


From 1e3c4e3420b12a0771c92a6f17ce043edc18e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 21/54] fix: an answer declares no matrix symbols

---
 math_evaluation/core/latex_normalize.py  | 6 +++---
 math_evaluation/core/latex_parser.py     | 5 ++---
 math_evaluation/core/time_limit.py       | 9 +++++++++
 math_evaluation/core/type_evaluations.py | 4 ++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index b101e5d..d9a38ba 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -7,7 +7,7 @@ from typing import Optional
 from latex2sympy.latex2sympy2 import latex2sympy
 
 from .constants import *
-from .time_limit import parse_in_time
+from .time_limit import parse_answer
 
 
 def _parse_latex(expr: str) -> str:
@@ -133,8 +133,8 @@ def _str_to_interval(x: str):
             for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
                 and_interval = and_interval.strip()
                 int_start, int_end = and_interval.split(',')
-                int_start = parse_in_time(latex2sympy, int_start.replace('(', '').replace('[', ''))
-                int_end = parse_in_time(latex2sympy, int_end.replace(')', '').replace(']', ''))
+                int_start = parse_answer(int_start.replace('(', '').replace('[', ''))
+                int_end = parse_answer(int_end.replace(')', '').replace(']', ''))
                 # check validation
                 if int_start.is_number:
                     int_start = int_start.evalf()
diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 0045df6..033efb8 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -12,10 +12,9 @@ from sympy.parsing.latex import parse_latex
 from sympy.parsing import sympy_parser
 from sympy import Symbol, pi, Expr, Matrix, I
 from sympy.core.relational import Equality, Relational
-from latex2sympy.latex2sympy2 import latex2sympy
 
 from .constants import *
-from .time_limit import time_limit, parse_in_time
+from .time_limit import time_limit, parse_in_time, parse_answer
 
 
 BAD_SUBSTRINGS = ["^{", "^("]
@@ -65,7 +64,7 @@ def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     
     """
     try:
-        l2s_expr = parse_in_time(latex2sympy, expr)
+        l2s_expr = parse_answer(expr)
     except:
         l2s_expr = None
 
diff --git a/math_evaluation/core/time_limit.py b/math_evaluation/core/time_limit.py
index 5ef3c3a..e026c8b 100644
--- a/math_evaluation/core/time_limit.py
+++ b/math_evaluation/core/time_limit.py
@@ -1,7 +1,9 @@
 """limit the time of one step of a comparison"""
 import ctypes
+import re
 import threading
 
+from latex2sympy.latex2sympy2 import latex2sympy
 from timeout_decorator import timeout
 
 from .constants import TIMEOUT_MESSAGE, TIMEOUT_SECONDS
@@ -46,3 +48,10 @@ def parse_in_time(parse, *args, **kwargs):
         return parse(*args, **kwargs)
 
     return _parse()
+
+
+def parse_answer(expr: str):
+    r"""Read the latex of an answer, which must not declare matrix symbols (A \in R^{2 \times 3}) for later ones."""
+    if re.search(r"\\in(?!t|fty)", expr):
+        raise ValueError("not an expression")
+    return parse_in_time(latex2sympy, expr)
diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index 1cd9f31..f34e1bb 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -4,7 +4,7 @@ from typing import Optional
 from sympy import simplify, im, N, Equality, Expr
 from sympy import re as sympy_re
 
-from latex2sympy.latex2sympy2 import latex2sympy
+from .time_limit import parse_answer
 
 from .evaluations import is_latex_equiv, is_equiv, is_equiv_possible_matrix, is_equiv_possible_tuple
 from .latex_normalize import (
@@ -59,7 +59,7 @@ def try_to_parse_function(expr: str):
         lhs_str = expr[:idx]
         rhs_str = expr[idx + 1:]
         try:
-            f_lhs = latex2sympy(lhs_str)
+            f_lhs = parse_answer(lhs_str)
             inv_f_lhs = 1 / f_lhs
             # if (f_lhs.is_Function and getattr(f_lhs, "name", None)) \
             #     or (inv_f_lhs.is_Function and getattr(inv_f_lhs, "name", None)) \
-- 
2.43.0


From 4e0294bea3d59fe82e5f75a96607b78364331f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 22/54] fix: different units are different answers

---
 math_evaluation/core/latex_normalize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index d9a38ba..8b878f0 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -357,7 +357,11 @@ def _string_normalize(expr: str):
     # single letter unit is not considered, e.g., m in 5 + m or 5 m
     for unit in UNIT_LONG_LIST:
         regex = r" *{unit}(es|s)? *(\^\d|\^{{\d+}}+)?".format(unit=unit)
-        expr = re.sub(regex, "", expr)
+        without_unit = re.sub(regex, "", expr)
+        if expr.strip() and not without_unit.strip():
+            # the answer is nothing but a unit
+            return further_string_normalize(unit)
+        expr = without_unit
     # For short unit: 
     #   MUST have space between value and unit, 
     #   e.g., 5 cm, 5 cm^2 -> 5
-- 
2.43.0


From 7a55e67b1e3fa8c6d53a8f4a353f6f50c453f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 23/54] fix: the content of a box ends at its own closing brace

---
 example_tora_eval.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/example_tora_eval.py b/example_tora_eval.py
index 1512ca8..73f824d 100644
--- a/example_tora_eval.py
+++ b/example_tora_eval.py
@@ -29,9 +29,19 @@ for t_d in test_data:
 
 def extract_boxed(output):
     lidx = output.rfind("\\boxed{")
-    if lidx > 0:
+    if lidx >= 0:
         lidx += len("\\boxed{")
-        ridx = output.rfind("}")
+        ridx, depth = lidx, 1
+        while ridx < len(output):
+            if output[ridx] == "\\":
+                ridx += 1
+            elif output[ridx] == "{":
+                depth += 1
+            elif output[ridx] == "}":
+                depth -= 1
+                if depth == 0:
+                    break
+            ridx += 1
         return output[lidx: ridx]
     return None
 
-- 
2.43.0


From 37c716e0e456454d9e2288400371c99bb7d0d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 24/54] fix: the integration variable is the differential, not
 any symbol starting with d

---
 latex2sympy/latex2sympy2.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index a01def2..33f1a58 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1034,13 +1034,12 @@ def handle_integral(func):
     if func.DIFFERENTIAL():
         int_var = get_differential_var(func.DIFFERENTIAL())
     else:
+        tokens = func.parser.getTokenStream().tokens[func.start.tokenIndex:func.stop.tokenIndex + 1]
+        differentials = ['d' + get_differential_var_str(token.text) for token in tokens if token.type == PSLexer.DIFFERENTIAL]
         for sym in integrand.atoms(sympy.Symbol):
             s = str(sym)
-            if len(s) > 1 and s[0] == 'd':
-                if s[1] == '\\':
-                    int_var = sympy.Symbol(s[2:], real=is_real)
-                else:
-                    int_var = sympy.Symbol(s[1:], real=is_real)
+            if s in differentials:
+                int_var = sympy.Symbol(s[1:], real=is_real)
                 int_sym = sym
         if int_var:
             integrand = integrand.subs(int_sym, 1)
-- 
2.43.0


From e258ae69a7600ab40b8fe10cdf94f296bcd476cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 25/54] fix: e-notation is never read as a multiple of the
 constant e

---
 math_evaluation/core/latex_normalize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 8b878f0..6058cd8 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -393,11 +393,11 @@ def further_string_normalize(expr: str):
     if len(expr) > 0 and expr[0] == "{" and expr[-1] == "}":
         expr = expr[1:-1]
     
-    if _is_float(expr) and _is_int(float(expr)):
-        if re.search("e", expr):
-            expr = float_to_latex_scientific(expr)
-        else:
-            expr = str(int(round(float(expr))))
+    if _is_float(expr) and re.search(r"[\d.]e", expr.lower()):
+        # 2.5e-3 is no multiple of the constant e
+        expr = float_to_latex_scientific(expr.lower())
+    elif _is_float(expr) and _is_int(float(expr)):
+        expr = str(int(round(float(expr))))
 
     if "\\" in expr:
         try:
-- 
2.43.0


From 315719267391f0d9524602cf49c102190f29c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 26/54] fix: 12 pm is noon

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 6058cd8..f00518a 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -200,7 +200,7 @@ def _str_to_time_list(expr: str):
         hour, meridiem = match.group(1, 2)
         if "p.m." in meridiem.lower() or "pm" in meridiem.lower():
             hour = {
-                str(int(hour) % 12),
+                str((int(hour) - 1) % 12 + 1),
                 str(int(hour) % 12 + 12),
             }
         return hour
@@ -213,7 +213,7 @@ def _str_to_time_list(expr: str):
         # second and meridem could be None
         if meridiem and ("p.m." in meridiem.lower() or "pm" in meridiem.lower()):  
             hour = [
-                str(int(hour) % 12),
+                str((int(hour) - 1) % 12 + 1),
                 str(int(hour) % 12 + 12),
             ]
         if second and int(second) != 0:
-- 
2.43.0


From 7102960a16f63ec55ac640fc3a476f55a049ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 27/54] fix: percentages and based numerals in dollar signs

---
 math_evaluation/core/latex_normalize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index f00518a..46d4f9b 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -279,6 +279,10 @@ def _string_normalize(expr: str):
     # "{,}" -> ","
     expr = re.sub(r"\{,\}", ",", expr)
 
+    # Remove $
+    expr = expr.replace("\\$", "$")
+    expr = expr.replace("$", "")
+
     # Transform non decimal integer
     m = re.search(r"^(\d+)_(?:(\d)|\{(\d+)\})$", expr)
     if m:
@@ -303,10 +307,6 @@ def _string_normalize(expr: str):
                 str(float(expr)),
             }
 
-    # Remove $
-    expr = expr.replace("\\$", "$")
-    expr = expr.replace("$", "")
-
     # Normalize "or" and "and" to " , "
     regex = r",? *((\\text\{ *(and|or) *\})| (and|or) )"
     expr = re.sub(regex, " , ", expr)
-- 
2.43.0


From 761affd4010ee2cd9d1730d69c2ab0b45e5ac2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 28/54] fix: read a set in LaTeX braces as an unordered list of
 its elements

---
 math_evaluation/core/latex_normalize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 46d4f9b..e6f9057 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -326,6 +326,7 @@ def _string_normalize(expr: str):
     expr = re.sub(r"\\left\[", "[", expr)
     expr = re.sub(r"\\right\)", ")", expr)
     expr = re.sub(r"\\right\]", "]", expr)
+    expr = re.sub(r"\\left\\\{(.*?)\\right\\\}", r"\\{\1\\}", expr, flags=re.DOTALL)
 
     # remove x \in, but not x \infty or x \int
     expr = re.sub(r"[a-zA-Z]+\s*\\in(?![a-zA-Z])", "", expr)
@@ -446,7 +447,7 @@ def split_tuple(expr: str, expected_type: Optional[type] = None):
     Only consider first and last brackets are matched and no bracket between the first and last brackets
 
     "(x, y, z)" or "[x, y, z]" -> ["x", "y", "z"]
-    "x, y, z" or "{x, y, z}" -> {"x", "y", "z"}
+    "x, y, z", "{x, y, z}" or "\\{x, y, z\\}" -> {"x", "y", "z"}
     "[(1, 2), (2,3)]" -> ["(1, 2)", "(2,3)"]
     """
     expr = _strip_properly_formatted_commas(expr)
@@ -454,9 +455,12 @@ def split_tuple(expr: str, expected_type: Optional[type] = None):
     # check whether to remove parenthesis
     # (1, 2), (3, 4) should not be tuple
     cnt = 0
+    latex_braces = expr.startswith("\\{") and expr.endswith("\\}")
     n = len(expr)
     remove_parenthesis = True
     for i, ch in enumerate(expr):
+        if i == 0 and latex_braces:
+            continue
         cnt += (ch == "[" or ch == "(" or ch == "{")
         cnt -= (ch == "]" or ch == ")" or ch == "}")
         if cnt == 0 and i < n - 1:
@@ -475,6 +479,9 @@ def split_tuple(expr: str, expected_type: Optional[type] = None):
         elif expr[0] + expr[-1] == "{}":
             expr = expr[1:-1]
             return_type = set
+        elif latex_braces:
+            expr = expr[2:-2]
+            return_type = set
     
     if expected_type:
         return_type = expected_type
-- 
2.43.0


From 10e20c555dd6f485945fe0367c07fbc6c6ee2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 29/54] fix: take the ends of an interval from its outermost
 brackets

---
 math_evaluation/core/latex_normalize.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index e6f9057..cf70621 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -132,9 +132,15 @@ def _str_to_interval(x: str):
             _or_interval = None
             for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
                 and_interval = and_interval.strip()
-                int_start, int_end = and_interval.split(',')
-                int_start = parse_answer(int_start.replace('(', '').replace('[', ''))
-                int_end = parse_answer(int_end.replace(')', '').replace(']', ''))
+                # brackets grouping several intervals
+                extra = len(re.findall(r'[(\[]', and_interval)) - len(re.findall(r'[)\]]', and_interval))
+                and_interval = and_interval[max(extra, 0):len(and_interval) + min(extra, 0)].strip()
+                # only the outermost brackets tell whether an end is open, the ends may contain others
+                if and_interval[0] not in '([' or and_interval[-1] not in ')]':
+                    raise Exception('Not an interval')
+                int_start, int_end = and_interval[1:-1].split(',')
+                int_start = parse_answer(int_start)
+                int_end = parse_answer(int_end)
                 # check validation
                 if int_start.is_number:
                     int_start = int_start.evalf()
@@ -147,7 +153,7 @@ def _str_to_interval(x: str):
                 if int_start.is_number and int_end.is_number and int_start > int_end:
                     raise Exception('Illegal Interval range')
                 # define sympy Interval
-                temp_int = sympy.Interval(int_start, int_end, left_open='(' in and_interval, right_open=')' in and_interval)
+                temp_int = sympy.Interval(int_start, int_end, left_open=and_interval[0] == '(', right_open=and_interval[-1] == ')')
                 if _or_interval is None:
                     _or_interval = temp_int
                 else:
-- 
2.43.0


From bea31af00c6d9594cc4b127b89326e125fd21048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 30/54] fix: a point with equal coordinates is not an empty
 interval

---
 math_evaluation/core/latex_normalize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index cf70621..331258f 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -152,6 +152,9 @@ def _str_to_interval(x: str):
                         int_end = sympy.Integer(int_end)
                 if int_start.is_number and int_end.is_number and int_start > int_end:
                     raise Exception('Illegal Interval range')
+                if int_start == int_end and (and_interval[0] == '(' or and_interval[-1] == ')'):
+                    # empty, e.g., the point (1, 1)
+                    raise Exception('Illegal Interval range')
                 # define sympy Interval
                 temp_int = sympy.Interval(int_start, int_end, left_open=and_interval[0] == '(', right_open=and_interval[-1] == ')')
                 if _or_interval is None:
-- 
2.43.0


From 1ba873545c82f0b5dee7a228f353db98f0fd00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 31/54] fix: a vector may be written in LaTeX braces

---
 math_evaluation/core/type_evaluations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index f34e1bb..288dce0 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -105,6 +105,8 @@ def is_equiv_vector(
         if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")) \
             or (normalized.startswith("{") and normalized.endswith("}")):
             normalized = "[" + normalized[1:-1] + "]"
+        elif normalized.startswith("\\{") and normalized.endswith("\\}"):
+            normalized = "[" + normalized[2:-2] + "]"
         else:
             normalized = "[" + normalized + "]"
         return normalized
-- 
2.43.0


From de649ef5067cd0785927f7eca5bc20bdb3153385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 32/54] fix: a list of points is not enclosed by its first and
 last bracket

---
 math_evaluation/core/type_evaluations.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index 288dce0..b7c9fbf 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -93,6 +93,19 @@ def is_equiv_function(
     return is_equiv(grt_func, pre_func)
 
 
+def is_enclosed(expr: str) -> bool:
+    """
+    Whether the first and last characters are a pair of brackets, as in "(1, 2)" but not in "(1, 2), (3, 4)"
+    """
+    cnt = 0
+    for i, ch in enumerate(expr):
+        cnt += ch in "([{"
+        cnt -= ch in ")]}"
+        if cnt == 0:
+            return i == len(expr) - 1 and expr[0] + expr[-1] in ("()", "[]", "{}")
+    return False
+
+
 def is_equiv_vector(
     ground_truth: str,
     prediction: str,
@@ -102,8 +115,7 @@ def is_equiv_vector(
     pre_normalized = string_normalize(prediction)
 
     def preprocess(normalized: str) -> str:
-        if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")) \
-            or (normalized.startswith("{") and normalized.endswith("}")):
+        if is_enclosed(normalized):
             normalized = "[" + normalized[1:-1] + "]"
         elif normalized.startswith("\\{") and normalized.endswith("\\}"):
             normalized = "[" + normalized[2:-2] + "]"
@@ -128,7 +140,7 @@ def is_equiv_set(
     pre_normalized = string_normalize(prediction)
 
     def preprocess(normalized: str) -> str:
-        if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")):
+        if is_enclosed(normalized) and not normalized.startswith("{"):
             normalized = normalized[1:-1]
         return normalized
 
-- 
2.43.0


From f77260047001dd104d74b7cca31120e44b41333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:20 +0000
Subject: [PATCH 33/54] fix: the column specification of an array is not one of
 its entries

---
 math_evaluation/core/latex_normalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 331258f..35b363d 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -118,6 +118,8 @@ def _str_matrix_normalize(expr: str):
     if "{cases}" in expr:
         expr = expr.replace("{cases}", "{matrix}")
     if "{array}" in expr:
+        # the column specification, e.g., {cc}, is not part of the matrix
+        expr = re.sub(r"begin\{array\}\s*\{[lcr|\s]*\}", "begin{matrix}", expr)
         expr = expr.replace("{array}", "{matrix}")
     if not (not "\\\\begin" in expr and "\\begin" in expr and "matrix" in expr):
         expr = expr.replace("\\\\", "\\")
-- 
2.43.0


From fd56996144aaef5e9d9746e3983454015fdc0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 34/54] fix: split the rows of an array written in brackets

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 35b363d..9dd0f15 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -556,7 +556,7 @@ def split_matrix(expr: str):
             print("WARNING: mismatched dimensions. Won't parse.")
         return is_matrix
 
-    regex = r"^\\begin\{[a-zA-Z]?matrix\}(.*?)\\end\{[a-zA-Z]?matrix\}$"
+    regex = r"^[\[(]?\\begin\{[a-zA-Z]?matrix\}(.*?)\\end\{[a-zA-Z]?matrix\}[\])]?$"
     match = re.search(regex, expr, re.DOTALL)
     elements = []
     if match:
-- 
2.43.0


From b47f3749e560dd1c789a58c153bfaa0a1e156dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 35/54] fix: draw the same sample points in every comparison

---
 math_evaluation/core/latex_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 033efb8..4f52ba2 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -270,7 +270,7 @@ def _numerical_equal(
     if not gt_latex_sympy.free_symbols == gv_latex_sympy.free_symbols:
         return False
     
-    gt_symbols = list(gt_latex_sympy.free_symbols)
+    gt_symbols = sorted(gt_latex_sympy.free_symbols, key=str)
     flag = True
     for _ in range(10):
         symbols_ = {a: rng(1, 10) for a in gt_symbols}
@@ -466,11 +466,13 @@ def _are_equal_latex_sympy(
     #       if x < 0, sqrt(x) * sqrt(1/x) = -1
     try:
         if gt_latex_sympy.free_symbols and gv_latex_sympy.free_symbols:
+            # the same numbers in every comparison, so that close expressions do not match by chance
+            rng = random.Random(0)
             # integer
-            num_equal = _numerical_equal(gt_latex_sympy, gv_latex_sympy, random.randint)
+            num_equal = _numerical_equal(gt_latex_sympy, gv_latex_sympy, rng.randint)
             if not num_equal:
                 # float 
-                num_equal = _numerical_equal(gt_latex_sympy, gv_latex_sympy, random.uniform)
+                num_equal = _numerical_equal(gt_latex_sympy, gv_latex_sympy, rng.uniform)
             return num_equal
     except:
         return False
-- 
2.43.0


From d439250161267356812337d2b8df455907358f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 36/54] fix: a non-zero rational function is not sampled

---
 math_evaluation/core/latex_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 4f52ba2..887cc47 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -282,6 +282,12 @@ def _numerical_equal(
     return flag
 
 
+def _is_nonzero_rational_function(simplified) -> bool:
+    # with exact coefficients it would have been simplified to zero, so there is nothing to sample
+    return isinstance(simplified, Expr) and bool(simplified.free_symbols) \
+        and simplified.is_rational_function() and not simplified.has(sympy.Float)
+
+
 def _diff_equal(
     gt_latex_sympy,
     diff_latex_sympy,
@@ -449,6 +455,7 @@ def _are_equal_latex_sympy(
 
     # simplify
     diff_equal = False
+    diff_latex_sympy = None
     try:
         diff_latex_sympy = sympy_simplify(gt_latex_sympy - gv_latex_sympy)
         diff_equal = _diff_equal(gt_latex_sympy, diff_latex_sympy)
@@ -458,6 +465,9 @@ def _are_equal_latex_sympy(
     if diff_equal:
         return True
 
+    if diff_latex_sympy is not None and _is_nonzero_rational_function(diff_latex_sympy):
+        return False
+
     # numerical methods
     # sympy.simplify won't further simplify sqrt(f(x)) * sqrt(1/f(x))
     #
-- 
2.43.0


From 2f8e667acda85df5706631f5c84408a7da07b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 37/54] fix: a missing answer does not match one that
 normalizes to nothing

---
 math_evaluation/core/evaluations.py      | 4 ++++
 math_evaluation/core/type_evaluations.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 239dde7..49a5098 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -25,6 +25,10 @@ def is_equiv(ground_truth: str, given: str, verbose: bool = False):
     str_pass = ground_truth.strip() == given.strip()
     if str_pass:
         return True
+
+    # an answer is missing, e.g., gt = "\\%" is also normalized to ""
+    if not given.strip():
+        return False
     
     ground_truth_normalized = string_normalize(ground_truth)
     given_normalized = string_normalize(given)
diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index b7c9fbf..4199a79 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -158,6 +158,10 @@ def is_equiv_type(
     answer_type: Optional[str] = None,
     verbose: bool = False,
 ) -> bool:
+    if prediction is None or not prediction.strip():
+        # there is no answer to read as the type says
+        return is_equiv(ground_truth, prediction, verbose)
+
     # Mapping from answer types to their respective checking functions
     equiv_checks = {
         'Complex': is_equiv_complex,
-- 
2.43.0


From 0bc32dd986387575fbf1c9d6243ed014ed2af5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 38/54] fix: compare what cannot be evaluated as it is

---
 math_evaluation/core/latex_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 887cc47..c4c163a 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -438,10 +438,13 @@ def _are_equal_latex_sympy(
             gv_type = _get_sympy_type(gv_latex_sympy)
         return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, gt_type, gv_type)
 
+    # an expression which cannot be evaluated is compared as it is
     if gt_latex_sympy.is_number:
-        gt_latex_sympy = sympy_evalf(gt_latex_sympy)
+        gt_evaluated = sympy_evalf(gt_latex_sympy)
+        gt_latex_sympy = gt_latex_sympy if gt_evaluated is None else gt_evaluated
     if gv_latex_sympy.is_number:
-        gv_latex_sympy = sympy_evalf(gv_latex_sympy)
+        gv_evaluated = sympy_evalf(gv_latex_sympy)
+        gv_latex_sympy = gv_latex_sympy if gv_evaluated is None else gv_evaluated
 
     # expand
     ltx_ltx_equal = False
-- 
2.43.0


From d9b292199ae0a9da53fdb04bd6025598fc8127ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 39/54] fix: evaluate the ends of an interval within the time
 limit

---
 math_evaluation/core/latex_normalize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 9dd0f15..80bab48 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -7,7 +7,7 @@ from typing import Optional
 from latex2sympy.latex2sympy2 import latex2sympy
 
 from .constants import *
-from .time_limit import parse_answer
+from .time_limit import parse_answer, parse_in_time
 
 
 def _parse_latex(expr: str) -> str:
@@ -145,11 +145,11 @@ def _str_to_interval(x: str):
                 int_end = parse_answer(int_end)
                 # check validation
                 if int_start.is_number:
-                    int_start = int_start.evalf()
+                    int_start = parse_in_time(int_start.evalf)
                     if _is_int(int_start):
                         int_start = sympy.Integer(int_start)
                 if int_end.is_number:
-                    int_end = int_end.evalf()
+                    int_end = parse_in_time(int_end.evalf)
                     if _is_int(int_end):
                         int_end = sympy.Integer(int_end)
                 if int_start.is_number and int_end.is_number and int_start > int_end:
-- 
2.43.0


From a6c909d8fb99d2e15bf35a71693b54062c9847a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 40/54] fix: evaluate the arguments of gcd and lcm before
 taking them, a modulo is not a polynomial variable

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 33f1a58..52aa411 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1115,7 +1115,7 @@ def handle_gcd_lcm(f, args):
     args: List[Expr] - list of function arguments
     """
 
-    args = tuple(map(sympy.nsimplify, args))
+    args = tuple(sympy.nsimplify(arg.doit()) for arg in args)
 
     # gcd() and lcm() don't support evaluate=False
     return sympy.UnevaluatedExpr(getattr(sympy, f)(args))
-- 
2.43.0


From edcc742e41e5a103bc852ddfb025c3ddaab3404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 41/54] fix: evaluate the arguments of a binomial, which sympy
 may refuse unevaluated

---
 latex2sympy/latex2sympy2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 52aa411..e8f19ab 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -337,7 +337,7 @@ def mat_add_flat(lh, rh):
             args = args + list(rh.args)
         else:
             args += [rh]
-        return sympy.MatAdd(*[arg.doit() for arg in args], evaluate=False)
+        return sympy.MatAdd(*args, evaluate=False)
     else:
         return sympy.MatAdd(lh.doit(), rh.doit(), evaluate=False)
 
@@ -369,7 +369,7 @@ def mat_mul_flat(lh, rh):
             args = args + list(rh.args)
         else:
             args += [rh]
-        return sympy.MatMul(*[arg.doit() for arg in args], evaluate=False)
+        return sympy.MatMul(*args, evaluate=False)
     else:
         if hasattr(lh, 'doit') and hasattr(rh, 'doit'):
             return sympy.MatMul(lh.doit(), rh.doit(), evaluate=False)
@@ -815,7 +815,7 @@ def convert_frac(frac):
 def convert_binom(binom):
     expr_top = convert_expr(binom.upper)
     expr_bot = convert_expr(binom.lower)
-    return sympy.binomial(expr_top, expr_bot)
+    return sympy.binomial(expr_top.doit(), expr_bot.doit())
 
 
 def split_args(text):
-- 
2.43.0


From 4bd60236e3562b5adebb0cdee0e1e7abb0edaaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 42/54] fix: skip an escaped dollar sign in an expression, as
 the grammar has it

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index e8f19ab..1447bb7 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -73,7 +73,7 @@ def latex2sympy(sympy: str, variable_values={}):
     # Remove \quad
     sympy = sympy.replace(r'\quad', ' ', -1).replace(r'\qquad', ' ', -1).replace(r'~', ' ', -1).replace(r'\,', ' ', -1)
     # Remove $
-    sympy = sympy.replace(r'$', ' ', -1)
+    sympy = sympy.replace(r'\$', ' ', -1).replace(r'$', ' ', -1)
 
     # variable values
     VARIABLE_VALUES.values = variable_values
-- 
2.43.0


From f338843915d56aef18f439c7fdfed9a1ac30b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 43/54] fix: read the power after an unbraced base of a
 logarithm as the power of the logarithm

---
 latex2sympy/latex2sympy2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 1447bb7..a600e90 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -841,6 +841,7 @@ def convert_func(func):
             arg = convert_func_arg(func.func_single_arg_noparens())
 
         name = func.func_normal_single_arg().start.text[1:]
+        log_pow = None
 
         # change arc<trig> -> a<trig>
         if name in ["arcsin", "arccos", "arctan", "arccsc", "arcsec",
@@ -894,6 +895,10 @@ def convert_func(func):
             if func.subexpr():
                 if func.subexpr().atom():
                     base = convert_atom(func.subexpr().atom())
+                    atom_expr = func.subexpr().atom().atom_expr()
+                    if atom_expr and atom_expr.supexpr() and not func.supexpr():
+                        # the power after an unbraced base is that of the logarithm
+                        base, log_pow = base.args
                 else:
                     base = convert_expr(func.subexpr().expr())
             elif name == "log":
@@ -910,7 +915,7 @@ def convert_func(func):
         elif name == 'det':
             expr = arg.det()
 
-        func_pow = None
+        func_pow = log_pow
         should_pow = True
         if func.supexpr():
             if func.supexpr().expr():
-- 
2.43.0


From 728285bbf46960eaff2ff9c71a2a4e4c3fff290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 44/54] fix: a subscript or power without braces ends at a
 blank, so that \log_2 16 is not \log_{21} 6

---
 latex2sympy/latex2sympy2.py             | 3 +++
 math_evaluation/core/latex_normalize.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index a600e90..db7ba38 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -75,6 +75,9 @@ def latex2sympy(sympy: str, variable_values={}):
     # Remove $
     sympy = sympy.replace(r'\$', ' ', -1).replace(r'$', ' ', -1)
 
+    # Blanks are skipped between tokens, but end a script without braces
+    sympy = re.sub(r"([_^]\s*)(\d+)\s+(?=[\d.])", r"\1{\2} ", sympy)
+
     # variable values
     VARIABLE_VALUES.values = variable_values
     try:
diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 80bab48..9cf0d5f 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -281,6 +281,9 @@ def _string_normalize(expr: str):
         expr = m.group(2) if m.group(2) else m.group(3)
         return string_normalize(expr)
 
+    # a script without braces ends at a blank: "\\log_2 16" is not \\log_{216}
+    expr = re.sub(r"([_^]\s*)(\d+)(?:\s|\\[,;:! ]|~)+(?=[\d.])", r"\1{\2} ", expr)
+
     # Remove all kinds of space
     expr = re.sub(r"\\:", "", expr)
     expr = re.sub(r"\\,", "", expr)
-- 
2.43.0


From f3bb47c37e0c84f16abfe9091d8e8b0bf04cd3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 45/54] fix: interval ends equal in exact notation match in
 spite of rounding

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 9cf0d5f..be12397 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -145,11 +145,11 @@ def _str_to_interval(x: str):
                 int_end = parse_answer(int_end)
                 # check validation
                 if int_start.is_number:
-                    int_start = parse_in_time(int_start.evalf)
+                    int_start = parse_in_time(int_start.evalf, 12)     # 2.006 and 1003/500 are the same end
                     if _is_int(int_start):
                         int_start = sympy.Integer(int_start)
                 if int_end.is_number:
-                    int_end = parse_in_time(int_end.evalf)
+                    int_end = parse_in_time(int_end.evalf, 12)
                     if _is_int(int_end):
                         int_end = sympy.Integer(int_end)
                 if int_start.is_number and int_end.is_number and int_start > int_end:
-- 
2.43.0


From b10654090e10d8b8ffb0e09117784c3c38283192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 46/54] fix: partial derivatives and differentials take every
 identifier

---
 latex2sympy/latex2sympy2.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index db7ba38..709cac0 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -772,17 +772,15 @@ def convert_frac(frac):
                 frac.lower.start.type == PSLexer.DIFFERENTIAL):
             wrt = get_differential_var_str(frac.lower.start.text)
             diff_op = True
-        elif (lower_itv_len == 2 and
+        elif (lower_itv_len > 1 and
               frac.lower.start.type == PSLexer.SYMBOL and
-              frac.lower.start.text == '\\partial' and
-              (frac.lower.stop.type == PSLexer.LETTER_NO_E or frac.lower.stop.type == PSLexer.SYMBOL)):
-            partial_op = True
-            wrt = frac.lower.stop.text
-            if frac.lower.stop.type == PSLexer.SYMBOL:
-                wrt = wrt[1:]
+              frac.lower.start.text == '\\partial'):
+            wrt = convert_text(rule2text(frac.lower)[len('\\partial'):])
+            partial_op = isinstance(wrt, sympy.Symbol)
 
         if diff_op or partial_op:
-            wrt = sympy.Symbol(wrt, real=is_real)
+            if diff_op:
+                wrt = sympy.Symbol(wrt, real=is_real)
             if (diff_op and frac.upper.start == frac.upper.stop and
                 frac.upper.start.type == PSLexer.LETTER_NO_E and
                     frac.upper.start.text == 'd'):
@@ -1161,6 +1159,8 @@ def get_differential_var_str(text):
     text = text[idx:]
     if text[0] == "\\":
         text = text[1:]
+    # the same name as the identifier has elsewhere
+    text = re.sub(r'_\{(\d)\}$', r'_\1', text)
     return text
 
 
-- 
2.43.0


From 64b7e47062dd82ec2345816c2357f0b0cabcbd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 47/54] fix: powers, quotients and functions of matrix
 expressions are those of the matrix

---
 latex2sympy/latex2sympy2.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 709cac0..610ff73 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -384,6 +384,18 @@ def mat_mul_flat(lh, rh):
             return sympy.MatMul(lh, rh, evaluate=False)
 
 
+def explicit(expr):
+    expr = expr.doit()
+    return expr.as_explicit() if isinstance(expr, sympy.MatrixExpr) else expr
+
+
+def mat_inverse(expr):
+    if expr.is_Matrix:
+        return sympy.MatPow(expr.doit(), -1, evaluate=False)
+    else:
+        return sympy.Pow(expr, -1, evaluate=False)
+
+
 def convert_add(add):
     if add.ADD():
         lh = convert_add(add.additive(0))
@@ -431,7 +443,7 @@ def convert_mp(mp):
         lh = convert_mp(mp_left)
         rh = convert_mp(mp_right)
         if lh.is_Matrix or rh.is_Matrix:
-            return sympy.MatMul(lh, sympy.Pow(rh, -1, evaluate=False), evaluate=False)
+            return mat_mul_flat(lh, mat_inverse(rh))
         else:
             return sympy.Mul(lh, sympy.Pow(rh, -1, evaluate=False), evaluate=False)
     elif mp.CMD_MOD():
@@ -573,6 +585,8 @@ def convert_exp(exp):
             exponent = convert_atom(exp.atom())
         elif exp.expr():
             exponent = convert_expr(exp.expr())
+        if base.is_Matrix:
+            return sympy.MatPow(base.doit(), exponent, evaluate=False)
         return sympy.Pow(base, exponent, evaluate=False)
     else:
         if hasattr(exp, 'comp'):
@@ -585,7 +599,7 @@ def convert_comp(comp):
     if comp.group():
         return convert_expr(comp.group().expr())
     elif comp.norm_group():
-        return convert_expr(comp.norm_group().expr()).norm()
+        return explicit(convert_expr(comp.norm_group().expr())).norm()
     elif comp.abs_group():
         return sympy.Abs(convert_expr(comp.abs_group().expr()), evaluate=False)
     elif comp.floor_group():
@@ -808,7 +822,7 @@ def convert_frac(frac):
     else:
         expr_bot = sympy.Number(frac.lowerd.text)
     if expr_top.is_Matrix or expr_bot.is_Matrix:
-        return sympy.MatMul(expr_top, sympy.Pow(expr_bot, -1, evaluate=False), evaluate=False)
+        return mat_mul_flat(expr_top, mat_inverse(expr_bot))
     else:
         return sympy.Mul(expr_top, sympy.Pow(expr_bot, -1, evaluate=False), evaluate=False)
 
@@ -857,6 +871,9 @@ def convert_func(func):
             expr = getattr(sympy.functions, name)(arg, evaluate=False)
         elif name == "operatorname":
             operatorname = func.func_normal_single_arg().func_operator_name.getText()
+            if operatorname not in ["arsinh", "arcosh", "artanh", "arcsinh", "arccosh", "arctanh", "floor", "ceil"]:
+                # operations on an explicit matrix
+                arg = explicit(arg)
 
             if operatorname in ["arsinh", "arcosh", "artanh"]:
                 operatorname = "a" + operatorname[2:]
@@ -914,7 +931,7 @@ def convert_func(func):
         elif name == "ceil":
             expr = handle_ceil(arg)
         elif name == 'det':
-            expr = arg.det()
+            expr = explicit(arg).det()
 
         func_pow = log_pow
         should_pow = True
@@ -946,6 +963,9 @@ def convert_func(func):
 
         if name == "operatorname":
             operatorname = func.func_normal_multi_arg().func_operator_name.getText()
+            if operatorname not in ["gcd", "lcm"]:
+                # operations on explicit matrices
+                args = [explicit(arg) for arg in args]
             if operatorname in ["gcd", "lcm"]:
                 expr = handle_gcd_lcm(operatorname, args)
             elif operatorname == 'zeros':
-- 
2.43.0


From 3b848751d8ac5eda7d07d7d7f8d815ea7830a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 48/54] fix: identifiers keep their scripts, whatever the
 blanks and braces in them; I with a script is not I

---
 latex2sympy/latex2sympy2.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 610ff73..9cbfdf8 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -621,6 +621,12 @@ def convert_comp(comp):
         return convert_func(comp.func())
 
 
+def name_text(ctx):
+    # blanks that end no command and braces around a single symbol make no difference
+    text = re.sub(r'_\{(.|\\[a-zA-Z]+) ?\}', r'_\1 ', ctx.getText())
+    return re.sub(r' +(?![a-zA-Z])|(?<=_.) +', '', text.strip())
+
+
 def convert_atom(atom):
     if atom.atom_expr():
         atom_expr = atom.atom_expr()
@@ -629,8 +635,6 @@ def convert_atom(atom):
         atom_text = ''
         if atom_expr.LETTER_NO_E():
             atom_text = atom_expr.LETTER_NO_E().getText()
-            if atom_text == "I":
-                return sympy.I
         elif atom_expr.GREEK_CMD():
             atom_text = atom_expr.GREEK_CMD().getText()[1:].strip()
         elif atom_expr.OTHER_SYMBOL_CMD():
@@ -640,7 +644,7 @@ def convert_atom(atom):
             # get name for accent
             name = atom_accent.start.text
             # get the base (variable)
-            base = atom_accent.base.getText()
+            base = name_text(atom_accent.base)
             _name = name[1:]
             # exception: check if bar or overline which are treated both as bar
             if _name in ["bar", "overline"]:
@@ -659,11 +663,11 @@ def convert_atom(atom):
             subexpr = atom_expr.subexpr()
             subscript = None
             if subexpr.expr():  # subscript is expr
-                subscript = subexpr.expr().getText().strip()
+                subscript = name_text(subexpr.expr())
             elif subexpr.atom():  # subscript is atom
-                subscript = subexpr.atom().getText().strip()
+                subscript = name_text(subexpr.atom())
             elif subexpr.args():  # subscript is args
-                subscript = subexpr.args().getText().strip()
+                subscript = name_text(subexpr.args())
             subscript_inner_text = StrPrinter().doprint(subscript)
             if len(subscript_inner_text) > 1:
                 subscript_text = '_{' + subscript_inner_text + '}'
@@ -671,7 +675,10 @@ def convert_atom(atom):
                 subscript_text = '_' + subscript_inner_text
 
         # construct the symbol using the text and optional subscript
-        atom_symbol = sympy.Symbol(atom_text + subscript_text, real=is_real)
+        if atom_text == "I" and not subscript_text:
+            atom_symbol = sympy.I
+        else:
+            atom_symbol = sympy.Symbol(atom_text + subscript_text, real=is_real)
         # for matrix symbol
         matrix_symbol = None
         global var
@@ -1004,7 +1011,7 @@ def convert_func(func):
         return expr
     elif func.atom_expr_no_supexpr():
         # define a function
-        f = sympy.Function(func.atom_expr_no_supexpr().getText())
+        f = sympy.Function(str(convert_text(func.atom_expr_no_supexpr().getText())))
         # args
         args = split_args(func.func_common_args().getText())
         if args[-1] == '':
-- 
2.43.0


From 15a054c7b3d6a805b68c5943aed09532fc4b0990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 49/54] fix: a refused text declares no matrix symbol

---
 latex2sympy/latex2sympy2.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 9cbfdf8..069d793 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -80,8 +80,16 @@ def latex2sympy(sympy: str, variable_values={}):
 
     # variable values
     VARIABLE_VALUES.values = variable_values
+    declared = dict(variances), dict(var)
     try:
         return convert_text(sympy)
+    except BaseException:
+        # what the refused text declared does not count
+        for table, before in zip((variances, var), declared):
+            if table != before:
+                table.clear()
+                table.update(before)
+        raise
     finally:
         VARIABLE_VALUES.values = {}
 
-- 
2.43.0


From b4e25e92cc48966d888c912f5166f57b5d2b95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 50/54] fix: mismatched delimiters are refused, also where the
 grammar takes any

---
 latex2sympy/latex2sympy2.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 069d793..2776bd3 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -94,6 +94,33 @@ def latex2sympy(sympy: str, variable_values={}):
         VARIABLE_VALUES.values = {}
 
 
+OPENING = {PSParser.R_PAREN: PSParser.L_PAREN, PSParser.R_GROUP: PSParser.L_GROUP, PSParser.R_BRACE: PSParser.L_BRACE,
+           PSParser.R_BRACE_VISUAL: PSParser.L_BRACE_VISUAL, PSParser.R_BRACE_CMD: PSParser.L_BRACE_CMD,
+           PSParser.R_BRACKET: PSParser.L_BRACKET, PSParser.R_BRACK: PSParser.L_BRACK}
+SIZING = {PSParser.R_RIGHT: PSParser.L_LEFT, PSParser.MR_RIGHT: PSParser.ML_LEFT}
+
+
+def check_delimiters(tokens, parser, matherror):
+    # the grammar alone pairs any bracket of a function call, any \left or \right there, and any kinds of matrix
+    tokens.fill()
+    opened, sizing = [], None
+    for token in tokens.tokens:
+        if token.channel != Token.DEFAULT_CHANNEL:
+            continue
+        kind = token.type
+        if kind in OPENING.values():
+            opened.append((kind, sizing))
+        elif kind == PSParser.CMD_MATRIX_START:
+            opened.append((re.sub(r'\s', '', token.text)[len(r'\begin'):], None))
+        elif kind in OPENING and (opened or sizing):
+            if not opened or opened.pop() != (OPENING[kind], SIZING.get(sizing)):
+                matherror.syntaxError(parser, token, token.line, token.column, "unbalanced input", None)
+        elif kind == PSParser.CMD_MATRIX_END:
+            if not opened or opened.pop()[0] != re.sub(r'\s', '', token.text)[len(r'\end'):]:
+                matherror.syntaxError(parser, token, token.line, token.column, "unbalanced input", None)
+        sizing = kind if kind in SIZING or kind in SIZING.values() else None
+
+
 def convert_text(sympy: str):
     # setup listener
     matherror = MathErrorListener(sympy)
@@ -110,6 +137,7 @@ def convert_text(sympy: str):
     # remove default console error listener
     parser.removeErrorListeners()
     parser.addErrorListener(matherror)
+    check_delimiters(tokens, parser, matherror)
 
     # process the input
     return_data = None
-- 
2.43.0


From b7b2e66822dac4bfffbbd8c03319515424c5c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 51/54] fix: the ASCII printer takes limits, integrals, sums,
 products and derivatives apart, and keeps operands together

---
 latex2sympy/asciimath_printer.py | 68 +++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/latex2sympy/asciimath_printer.py b/latex2sympy/asciimath_printer.py
index dd1b676..c9fd35b 100644
--- a/latex2sympy/asciimath_printer.py
+++ b/latex2sympy/asciimath_printer.py
@@ -1,35 +1,63 @@
 from sympy.printing.str import StrPrinter
+from sympy.printing.precedence import PRECEDENCE, precedence
 from sympy.core import S
+from sympy import Derivative, Integral, Limit, Product, Sum
 
 class AsciiMathPrinter(StrPrinter):
 
-    def _print_Limit(self, expr):
-        e, z = expr.args
+    def parenthesize(self, item, level, strict=False):
+        # limits, integrals, sums, products and derivatives reach to the end of their term
+        if isinstance(item, (Limit, Integral, Sum, Product, Derivative)):
+            prec = PRECEDENCE["Add"]
+        else:
+            prec = precedence(item)
+        if prec < level or (not strict and prec <= level):
+            return "(%s)" % self._print(item)
+        return self._print(item)
 
-        return "lim_(%s -> %s) %s" % (self._print(z), self._print(z), self._print(e))
+    def _print_body(self, expr):
+        return self.parenthesize(expr, PRECEDENCE["Mul"], strict=True)
+
+    def _print_Limit(self, expr):
+        e, z, z0, dir = expr.args
+        to = self._print(z0)
+        if str(dir) != '+-' and z0 not in (S.Infinity, S.NegativeInfinity):
+            to = "%s^%s" % (self.parenthesize(z0, PRECEDENCE["Atom"], strict=True), dir)
+        return "lim_(%s -> %s) %s" % (self._print(z), to, self._print_body(e))
 
     def _print_Integral(self, expr):
-        e, lims = expr.args
-        if len(lims) > 1:
-            return "int_(%s)^(%s) %s d%s" % (self._print(lims[1]), self._print(lims[2]), self._print(e), self._print(lims[0]))
-        else:
-            return "int %s d%s" % (self._print(e), self._print(lims))
-    
+        result = self._print_body(expr.function)
+        # the first limits belong to the innermost integral
+        for lims in expr.limits:
+            sign = "int"
+            if len(lims) == 3:
+                sign += "_(%s)" % self._print(lims[1])
+            if len(lims) > 1:
+                sign += "^(%s)" % self._print(lims[-1])
+            result = "%s %s d%s" % (sign, result, self._print(lims[0]))
+        return result
+
+    def _print_big(self, sign, expr):
+        result = self._print_body(expr.function)
+        for var, lower, upper in expr.limits:
+            result = "%s_(%s = %s)^(%s) %s" % (sign, self._print(var), self._print(lower), self._print(upper), result)
+        return result
+
     def _print_Sum(self, expr):
-        e, lims = expr.args
-        return "sum_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self._print(e))
+        return self._print_big("sum", expr)
 
     def _print_Product(self, expr):
-        e, lims = expr.args
-        return "prod_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self._print(e))
+        return self._print_big("prod", expr)
 
     def _print_factorial(self, expr):
-        return "%s!" % self._print(expr.args[0])
+        return "%s!" % self.parenthesize(expr.args[0], PRECEDENCE["Func"])
 
     def _print_Derivative(self, expr):
-        e = expr.args[0]
-        wrt = expr.args[1]
-        return "d/d%s %s" % (self._print(wrt), self._print(e))
+        result = self._print_body(expr.expr)
+        for wrt, count in expr.variable_count:
+            order = "" if count == 1 else "^(%s)" % self._print(count)
+            result = "d%s/d%s%s %s" % (order, self._print(wrt), order, result)
+        return result
 
     def _print_Abs(self, expr):
         return "|%s|" % self._print(expr.args[0])
@@ -37,14 +65,16 @@ class AsciiMathPrinter(StrPrinter):
     def _print_Equality(self, expr):
         return "%s = %s" % (self._print(expr.args[0]), self._print(expr.args[1]))
 
-    def _print_Pow(self, expr):
+    def _print_Pow(self, expr, rational=False):
         b = self._print(expr.base)
         if expr.exp is S.Half:
             return "sqrt(%s)" % b
 
         if -expr.exp is S.Half:
             return "1/sqrt(%s)" % b
+
+        b = self.parenthesize(expr.base, PRECEDENCE["Pow"])
         if expr.exp is -S.One:
             return "1/%s" % b
 
-        return "%s^(%s)" % (b, self._print(expr.exp)) 
+        return "%s^(%s)" % (b, self._print(expr.exp))
-- 
2.43.0


From e406ed3119913b6bcc27d42cea9d816bbae732eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 52/54] fix: printed LaTeX reads back: inverse functions,
 powers and bases of logarithms, one-sided limits, limits of integrals, lists

---
 latex2sympy/latex2sympy2.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 2776bd3..426acf2 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -14,6 +14,7 @@ except Exception:
     from .gen.PSListener import PSListener
 
 from sympy.printing.str import StrPrinter
+from sympy.printing.latex import LatexPrinter
 
 from sympy.parsing.sympy_parser import parse_expr
 
@@ -1227,14 +1228,41 @@ def get_differential_var_str(text):
     return text
 
 
+class ReadableLatexPrinter(LatexPrinter):
+    """ Prints what latex2sympy reads back """
+
+    def _print_log(self, expr, exp=None):
+        # the exponent at the name, after the argument it would be the argument's
+        name = r'\ln'
+        if len(expr.args) > 1 and expr.args[1] != sympy.E:
+            name = r'\log_{%s}' % self._print(expr.args[1])
+        if exp is not None:
+            name += '^{%s}' % exp
+        return r'%s\left(%s \right)' % (name, self._print(expr.args[0]))
+
+    def _print_Function(self, expr, exp=None):
+        tex = super()._print_Function(expr, exp)
+        # an argument in braces goes on with the factors after them
+        arg = r'\left(%s \right)' % ','.join(str(self._print(a)) for a in expr.args)
+        return tex[:-len(arg) - 2] + arg if tex.endswith('{%s}' % arg) else tex
+
+    def _print_factorial(self, expr, exp=None):
+        tex = super()._print_factorial(expr)
+        return tex if exp is None else r'\left(%s \right)^{%s}' % (tex, exp)
+
+
 def latex(tex):
     global frac_type
-    result = sympy.latex(tex)
+    result = ReadableLatexPrinter({'inv_trig_style': 'full'}).doprint(tex)
     result = result.replace(r'\frac', frac_type, -1).replace(r'\dfrac', frac_type, -1).replace(r'\tfrac', frac_type, -1)
     result = result.replace(r'\left[\begin{matrix}', r'\begin{bmatrix}', -1).replace(r'\end{matrix}\right]', r'\end{bmatrix}', -1)
     result = result.replace(r'\left', r'', -1).replace(r'\right', r'', -1)
     result = result.replace(r' )', r')', -1)
-    result = result.replace(r'\log', r'\ln', -1)
+    result = result.replace(r'\limits', r'', -1)
+    result = re.sub(r'\\operatorname\{(arccsc|arcsec|arccot)\}', r'\\\1', result)
+    # a one-sided limit, and the separator of a list
+    result = re.sub(r'\^([+-])(?=})', r'^{\1}', result)
+    result = result.replace(r', \  ', r', ', -1)
     return result
 
 
-- 
2.43.0


From 26cc61489cf559a383527362d04d4b9b4f41bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 53/54] fix: interval ends in e-notation are no multiples of
 the constant e

---
 math_evaluation/core/latex_normalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index be12397..61588e2 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -141,6 +141,8 @@ def _str_to_interval(x: str):
                 if and_interval[0] not in '([' or and_interval[-1] not in ')]':
                     raise Exception('Not an interval')
                 int_start, int_end = and_interval[1:-1].split(',')
+                # 25e8 is no multiple of the constant e
+                int_start, int_end = (float_to_latex_scientific(end) if "e" in end else end for end in (int_start, int_end))
                 int_start = parse_answer(int_start)
                 int_end = parse_answer(int_end)
                 # check validation
-- 
2.43.0


From faf701fc40ca4b439a8d820275efad99f6e847a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:43 +0000
Subject: [PATCH 54/54] fix: an answer of several braced parts lost the first
 and the last brace

---
 math_evaluation/core/latex_normalize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 61588e2..d454df6 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -2,6 +2,7 @@
 import re
 import sympy
 
+from itertools import accumulate
 from typing import Optional
 #from pylatexenc import latex2text
 from latex2sympy.latex2sympy2 import latex2sympy
@@ -408,7 +409,10 @@ def _string_normalize(expr: str):
 def further_string_normalize(expr: str):
     """Normalize str expressions"""
     if len(expr) > 0 and expr[0] == "{" and expr[-1] == "}":
-        expr = expr[1:-1]
+        # {1,2},{3,4} is not in braces as a whole
+        depths = list(accumulate((ch == "{") - (ch == "}") for ch in expr))
+        if 0 not in depths[:-1]:
+            expr = expr[1:-1]
     
     if _is_float(expr) and re.search(r"[\d.]e", expr.lower()):
         # 2.5e-3 is no multiple of the constant e
-- 
2.43.0

