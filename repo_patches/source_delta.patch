From 6aa9cb8dfff16ebb14726d124140f6a8c1b6355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 01/31] fix: arraySet fails for every float index (all script
 literals are floats)

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 00eef30..9019870 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -266,7 +266,7 @@ def _array_set(args, unused_options):
     if index >= len(array):
         raise ValueArgsError('index', index)
 
-    array[index] = value
+    array[int(index)] = value
     return value
 
 _ARRAY_SET_ARGS = value_args_model([
-- 
2.43.0


From 9731e46860ab8c7788bf65f3e59625a40eff292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 02/31] fix: dataTop fails for every float count (all script
 literals are floats)

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 40356d2..27a56fe 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -471,7 +471,7 @@ def top_data(data, count, category_fields=None):
     data_top = []
     for category_key in category_order:
         category_key_rows = category_rows[category_key]
-        for ix_row in range(min(count, len(category_key_rows))):
+        for ix_row in range(min(int(count), len(category_key_rows))):
             data_top.append(category_key_rows[ix_row])
 
     return data_top
-- 
2.43.0


From 8823cdf686d1c46cc5aefad19404b317ed8ac393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:10 +0000
Subject: [PATCH 03/31] fix: value_json number clean-up alters string contents
 and keys

---
 src/bare_script/value.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7d15158..8371547 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -113,8 +113,7 @@ def value_json(value, indent=None):
         result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
     else:
         result = _JSON_ENCODER_DEFAULT.encode(value)
-    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'', result)
-    return _R_VALUE_JSON_NUMBER_CLEANUP2.sub(r'\1', result)
+    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\1', result)
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,8 +129,8 @@ class _JSONEncoder(json.JSONEncoder):
 
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'\.0*$', re.MULTILINE)
-_R_VALUE_JSON_NUMBER_CLEANUP2 = re.compile(r'\.0*([,}\]])')
+# Match (and keep) string literals so that only number fractions are cleaned up
+_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'("(?:\\.|[^"\\])*")|\.0*(?=[,}\]]|$)', re.MULTILINE)
 
 
 def value_boolean(value):
-- 
2.43.0


From 648663e726363c3b66813a980fe5800a92d0c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 04/31] fix: diffLines drops every Identical block (misspelt
 variable)

---
 src/bare_script/include/diff.bare | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/include/diff.bare b/src/bare_script/include/diff.bare
index 39ba415..61e1b85 100644
--- a/src/bare_script/include/diff.bare
+++ b/src/bare_script/include/diff.bare
@@ -99,7 +99,7 @@ function diffLines(left, right):
             ixRight = ixRight + 1
         endwhile
         if identicalLines:
-            arrayPush(objectdiffs, objectNew('type', 'Identical', 'lines', identicalLines))
+            arrayPush(diffs, objectNew('type', 'Identical', 'lines', identicalLines))
             continue
         endif
 
-- 
2.43.0


From 853ee4dd81d3b633cdb34b940f732f5de58afead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 05/31] fix: arithmetic operators let host exceptions and
 complex numbers escape

---
 src/bare_script/runtime.py | 158 ++++++++++++++++++++-----------------
 1 file changed, 84 insertions(+), 74 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 316f2fe..1a5fc97 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -267,80 +267,11 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Non-short-circuiting binary operators
         right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
-        if bin_op == '+':
-            # number + number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value + right_value
-
-            # string + string
-            elif isinstance(left_value, str) and isinstance(right_value, str):
-                return left_value + right_value
-
-            # string + <any>
-            elif isinstance(left_value, str):
-                return left_value + value_string(right_value)
-            elif isinstance(right_value, str):
-                return value_string(left_value) + right_value
-
-            # datetime + number
-            elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
-                left_dt = value_normalize_datetime(left_value)
-                return left_dt + datetime.timedelta(milliseconds=right_value)
-            elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
-                right_dt = value_normalize_datetime(right_value)
-                return right_dt + datetime.timedelta(milliseconds=left_value)
-
-        elif bin_op == '-':
-            # number - number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value - right_value
-
-            # datetime - datetime
-            elif isinstance(left_value, datetime.date) and isinstance(right_value, datetime.date):
-                left_dt = value_normalize_datetime(left_value)
-                right_dt = value_normalize_datetime(right_value)
-                return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)
-
-        elif bin_op == '*':
-            # number * number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value * right_value
-
-        elif bin_op == '/':
-            # number / number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value / right_value
-
-        elif bin_op == '==':
-            return value_compare(left_value, right_value) == 0
-
-        elif bin_op == '!=':
-            return value_compare(left_value, right_value) != 0
-
-        elif bin_op == '<=':
-            return value_compare(left_value, right_value) <= 0
-
-        elif bin_op == '<':
-            return value_compare(left_value, right_value) < 0
-
-        elif bin_op == '>=':
-            return value_compare(left_value, right_value) >= 0
-
-        elif bin_op == '>':
-            return value_compare(left_value, right_value) > 0
-
-        elif bin_op == '%':
-            # number % number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value % right_value
-
-        else: # bin_op == '**'
-            # number ** number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value ** right_value
-
-        # Invalid operation values
-        return None
+        try:
+            return _evaluate_binary_operator(bin_op, left_value, right_value)
+        except Exception: # pylint: disable=broad-exception-caught
+            # Invalid operation values (e.g. division by zero, overflow)
+            return None
 
     # Unary expression
     if expr_key == 'unary':
@@ -359,6 +290,85 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return evaluate_expression(expr['group'], options, locals_, builtins)
 
 
+# Evaluate a (non-short-circuiting) binary operator
+def _evaluate_binary_operator(bin_op, left_value, right_value):
+    if bin_op == '+':
+        # number + number
+        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            return left_value + right_value
+
+        # string + string
+        elif isinstance(left_value, str) and isinstance(right_value, str):
+            return left_value + right_value
+
+        # string + <any>
+        elif isinstance(left_value, str):
+            return left_value + value_string(right_value)
+        elif isinstance(right_value, str):
+            return value_string(left_value) + right_value
+
+        # datetime + number
+        elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
+            left_dt = value_normalize_datetime(left_value)
+            return left_dt + datetime.timedelta(milliseconds=right_value)
+        elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
+            right_dt = value_normalize_datetime(right_value)
+            return right_dt + datetime.timedelta(milliseconds=left_value)
+
+    elif bin_op == '-':
+        # number - number
+        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            return left_value - right_value
+
+        # datetime - datetime
+        elif isinstance(left_value, datetime.date) and isinstance(right_value, datetime.date):
+            left_dt = value_normalize_datetime(left_value)
+            right_dt = value_normalize_datetime(right_value)
+            return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)
+
+    elif bin_op == '*':
+        # number * number
+        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            return left_value * right_value
+
+    elif bin_op == '/':
+        # number / number
+        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            return left_value / right_value
+
+    elif bin_op == '==':
+        return value_compare(left_value, right_value) == 0
+
+    elif bin_op == '!=':
+        return value_compare(left_value, right_value) != 0
+
+    elif bin_op == '<=':
+        return value_compare(left_value, right_value) <= 0
+
+    elif bin_op == '<':
+        return value_compare(left_value, right_value) < 0
+
+    elif bin_op == '>=':
+        return value_compare(left_value, right_value) >= 0
+
+    elif bin_op == '>':
+        return value_compare(left_value, right_value) > 0
+
+    elif bin_op == '%':
+        # number % number
+        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            return left_value % right_value
+
+    else: # bin_op == '**'
+        # number ** number
+        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            result = left_value ** right_value
+            return result if not isinstance(result, complex) else None
+
+    # Invalid operation values
+    return None
+
+
 class BareScriptRuntimeError(Exception):
     """
     A BareScript runtime error
-- 
2.43.0


From d2a38c5c45e62812a962b29228ac39f2591296c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 06/31] fix: arithmetic operators treat booleans as numbers
 instead of yielding null

---
 src/bare_script/runtime.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 1a5fc97..2a185c2 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -279,7 +279,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
+        elif unary_op == '-' and _is_number(value):
             return -value
 
         # Invalid operation value
@@ -290,11 +290,16 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return evaluate_expression(expr['group'], options, locals_, builtins)
 
 
+# Is a value a number? (a host bool is an int, but not a BareScript number)
+def _is_number(value):
+    return isinstance(value, (int, float)) and not isinstance(value, bool)
+
+
 # Evaluate a (non-short-circuiting) binary operator
 def _evaluate_binary_operator(bin_op, left_value, right_value):
     if bin_op == '+':
         # number + number
-        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+        if _is_number(left_value) and _is_number(right_value):
             return left_value + right_value
 
         # string + string
@@ -308,16 +313,16 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
             return value_string(left_value) + right_value
 
         # datetime + number
-        elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
+        elif isinstance(left_value, datetime.date) and _is_number(right_value):
             left_dt = value_normalize_datetime(left_value)
             return left_dt + datetime.timedelta(milliseconds=right_value)
-        elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
+        elif _is_number(left_value) and isinstance(right_value, datetime.date):
             right_dt = value_normalize_datetime(right_value)
             return right_dt + datetime.timedelta(milliseconds=left_value)
 
     elif bin_op == '-':
         # number - number
-        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+        if _is_number(left_value) and _is_number(right_value):
             return left_value - right_value
 
         # datetime - datetime
@@ -328,12 +333,12 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
 
     elif bin_op == '*':
         # number * number
-        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+        if _is_number(left_value) and _is_number(right_value):
             return left_value * right_value
 
     elif bin_op == '/':
         # number / number
-        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+        if _is_number(left_value) and _is_number(right_value):
             return left_value / right_value
 
     elif bin_op == '==':
@@ -356,12 +361,12 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
 
     elif bin_op == '%':
         # number % number
-        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+        if _is_number(left_value) and _is_number(right_value):
             return left_value % right_value
 
     else: # bin_op == '**'
         # number ** number
-        if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+        if _is_number(left_value) and _is_number(right_value):
             result = left_value ** right_value
             return result if not isinstance(result, complex) else None
 
-- 
2.43.0


From e3d1958898c3758b76238903a21d9928bb296aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:26 +0000
Subject: [PATCH 07/31] fix: number arguments accept booleans instead of
 failing validation

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 8371547..ea2e8d7 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -296,7 +296,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             continue
 
         # Invalid value?
-        if ((arg_type == 'number' and not isinstance(arg_value, (int, float))) or
+        if ((arg_type == 'number' and (not isinstance(arg_value, (int, float)) or isinstance(arg_value, bool))) or
             (arg_type == 'string' and not isinstance(arg_value, str)) or
             (arg_type == 'array' and not isinstance(arg_value, list)) or
             (arg_type == 'object' and not isinstance(arg_value, dict)) or
-- 
2.43.0


From e06adf4c0aaa9bc8d6f13702a279f51647a97cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 08/31] fix: non-finite and non-serializable arguments lose the
 function's documented failure value

---
 src/bare_script/value.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index ea2e8d7..5599650 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -311,7 +311,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             arg_lte = fn_arg.get('lte')
             arg_gt = fn_arg.get('gt')
             arg_gte = fn_arg.get('gte')
-            if ((fn_arg.get('integer') and int(arg_value) != arg_value) or
+            if ((fn_arg.get('integer') and isinstance(arg_value, float) and not arg_value.is_integer()) or
                 (arg_lt is not None and not (arg_value < arg_lt)) or
                 (arg_lte is not None and not (arg_value <= arg_lte)) or
                 (arg_gt is not None and not (arg_value > arg_gt)) or
@@ -341,10 +341,15 @@ class ValueArgsError(Exception):
     """
 
     def __init__(self, arg_name, arg_value, return_value = None):
+        try:
+            arg_value_json = value_json(arg_value)
+        except Exception: # pylint: disable=broad-exception-caught
+            # Not JSON-serializable (e.g. non-finite numbers, circular references)
+            arg_value_json = '<unknown>'
         if arg_name is None:
-            message = f'Too many arguments ({value_json(arg_value)})'
+            message = f'Too many arguments ({arg_value_json})'
         else:
-            message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            message = f'Invalid "{arg_name}" argument value, {arg_value_json}'
         super().__init__(message)
         self.return_value = return_value
 
-- 
2.43.0


From 76dc71ea1c3dcc63cbf0b707c68db2603e5a874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:31 +0000
Subject: [PATCH 09/31] fix: text that is not a valid ISO date raises or parses
 instead of yielding null

---
 src/bare_script/value.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 5599650..6fd9d3f 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -505,15 +505,21 @@ def value_parse_datetime(text):
         year = int(m_date.group('year'))
         month = int(m_date.group('month'))
         day = int(m_date.group('day'))
-        return datetime.datetime(year, month, day)
+        try:
+            return datetime.datetime(year, month, day)
+        except ValueError:
+            return None
     elif _R_DATETIME.match(text):
-        result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+        try:
+            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+        except (OverflowError, ValueError):
+            return None
         return result.replace(microsecond=(result.microsecond // 1000) * 1000)
 
     return None
 
-_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})$')
+_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})\Z', re.ASCII)
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From 41789d13e1565a5ba6b44aa513fdbda1804866db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 10/31] fix: rounding depends on whether the number and digits
 are held as int or float

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 6fd9d3f..b61f575 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -444,7 +444,7 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** digits
+    multiplier = 10.0 ** digits
     return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From 0d2f4fcc595c895eaad0d4289e1231c5749a4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 11/31] fix: * and ** on large integers depend on whether they
 are held as int or float

---
 src/bare_script/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 2a185c2..8af895b 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -334,7 +334,7 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
     elif bin_op == '*':
         # number * number
         if _is_number(left_value) and _is_number(right_value):
-            return left_value * right_value
+            return float(left_value) * float(right_value)
 
     elif bin_op == '/':
         # number / number
@@ -367,7 +367,7 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
     else: # bin_op == '**'
         # number ** number
         if _is_number(left_value) and _is_number(right_value):
-            result = left_value ** right_value
+            result = float(left_value) ** float(right_value)
             return result if not isinstance(result, complex) else None
 
     # Invalid operation values
-- 
2.43.0


From 92cd7f53b48da48af87902c1fb2029ffcdd22af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 12/31] fix: continue in a while loop skips the loop condition

---
 src/bare_script/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4d0ccdd..7b6e47c 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -215,12 +215,16 @@ def parse_script(script_text, start_line_number=1):
             # Add the while-do label
             whiledo = {
                 'loop': f'__bareScriptLoop{label_index}',
-                'continue': f'__bareScriptLoop{label_index}',
+                'continue': f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
                 'expr': parse_expression(match_while_begin.group('expr')),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
+
+            # The condition must be re-tested on continue, unless its constant true
+            if whiledo['expr'] == {'variable': 'true'}:
+                whiledo['continue'] = whiledo['loop']
             label_defs.append({'while': whiledo})
             label_index += 1
 
@@ -242,6 +246,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('No matching while statement', line, 1, start_line_number + ix_line)
 
             # Add the while-do footer statements
+            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:
+                statements.append({'label': whiledo['continue']})
             statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})
             statements.append({'label': whiledo['done']})
             continue
-- 
2.43.0


From 809b12449615fdc0eba075d0d5915d2f3a048a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 13/31] fix: trailing whitespace after a bare return is a
 syntax error

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 7b6e47c..825c9d5 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -422,7 +422,7 @@ _R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')
 _R_SCRIPT_FUNCTION_END = re.compile(r'^\s*endfunction\s*$')
 _R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*:\s*$')
 _R_SCRIPT_JUMP = re.compile(r'^(?P<jump>\s*(?:jump|jumpif\s*\((?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*)\s*$')
-_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>.+))?)\s*$')
+_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>\S.*))?)\s*$')
 _R_SCRIPT_INCLUDE = re.compile(r'^\s*include\s+(?P<delim>\')(?P<url>(?:\\\'|[^\'])*)\'\s*$')
 _R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>\s*$')
 _R_SCRIPT_IF_BEGIN = re.compile(r'^\s*if\s+(?P<expr>.+)\s*:\s*$')
-- 
2.43.0


From bd7173d70c04e3e1000b8244842f085f4de2d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 14/31] fix: if, elif, while and for expression errors have no
 line number and the wrong column

---
 src/bare_script/parser.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 825c9d5..a2f1238 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -124,11 +124,13 @@ def parse_script(script_text, start_line_number=1):
         # If-then begin?
         match_if_begin = _R_SCRIPT_IF_BEGIN.match(line)
         if match_if_begin:
+            if_expr = _parse_line_expression(match_if_begin, 'expr', line, start_line_number + ix_line)
+
             # Add the if-then label definition
             ifthen = {
                 'jump': {
                     'label': f"__bareScriptIf{label_index}",
-                    'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_begin.group('expr'))}}
+                    'expr': {'unary': {'op': '!', 'expr': if_expr}}
                 },
                 'done': f"__bareScriptDone{label_index}",
                 'hasElse': False,
@@ -156,10 +158,11 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('Elif statement following else statement', line, 1, start_line_number + ix_line)
 
             # Generate the next if-then jump statement
+            else_if_expr = _parse_line_expression(match_if_else_if, 'expr', line, start_line_number + ix_line)
             prev_label = ifthen['jump']['label']
             ifthen['jump'] = {
                 'label': f"__bareScriptIf{label_index}",
-                'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_else_if.group('expr'))}}
+                'expr': {'unary': {'op': '!', 'expr': else_if_expr}}
             }
             label_index += 1
 
@@ -217,7 +220,7 @@ def parse_script(script_text, start_line_number=1):
                 'loop': f'__bareScriptLoop{label_index}',
                 'continue': f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': parse_expression(match_while_begin.group('expr')),
+                'expr': _parse_line_expression(match_while_begin, 'expr', line, start_line_number + ix_line),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -255,6 +258,8 @@ def parse_script(script_text, start_line_number=1):
         # For-each begin?
         match_for_begin = _R_SCRIPT_FOR_BEGIN.match(line)
         if match_for_begin:
+            values_expr = _parse_line_expression(match_for_begin, 'values', line, start_line_number + ix_line)
+
             # Add the for-each label
             foreach = {
                 'loop': f'__bareScriptLoop{label_index}',
@@ -272,7 +277,7 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the for-each header statements
             statements.extend([
-                {'expr': {'name': foreach['values'], 'expr': parse_expression(match_for_begin.group('values'))}},
+                {'expr': {'name': foreach['values'], 'expr': values_expr}},
                 {'expr': {
                     'name': foreach['length'],
                     'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}
@@ -409,6 +414,14 @@ def parse_script(script_text, start_line_number=1):
     return script
 
 
+# Helper function to parse a statement's expression - expression errors are reported relative to the line
+def _parse_line_expression(match, group, line, line_number):
+    try:
+        return parse_expression(match.group(group))
+    except BareScriptParserError as error:
+        raise BareScriptParserError(error.error, line, match.start(group) + error.column_number, line_number)
+
+
 # BareScript regex
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
-- 
2.43.0


From 4d7789849caec07bb5b85f11c33eadae3684c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 15/31] fix: an expression statement beginning with 'name =='
 is a syntax error

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index a2f1238..21155a6 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -426,7 +426,7 @@ def _parse_line_expression(match, group, line, line_number):
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
 _R_SCRIPT_COMMENT = re.compile(r'^\s*(?:#.*)?$')
-_R_SCRIPT_ASSIGNMENT = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*=\s*(?P<expr>.+)$')
+_R_SCRIPT_ASSIGNMENT = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*=(?!=)\s*(?P<expr>.+)$')
 _R_SCRIPT_FUNCTION_BEGIN = re.compile(
     r'^(?P<async>\s*async)?\s*function\s+(?P<name>[A-Za-z_]\w*)\s*\('
     r'\s*(?P<args>[A-Za-z_]\w*(?:\s*,\s*[A-Za-z_]\w*)*)?(?P<lastArgArray>\s*\.\.\.)?\s*\)\s*:\s*$'
-- 
2.43.0


From 84489dcc1d3e565494e43f4d0a61bfabd4bd9a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 16/31] fix: a call of a function with a one-letter name is a
 syntax error

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 21155a6..ba3e904 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -611,7 +611,7 @@ def _parse_unary_expression(expr_text):
 # BareScript expression regex
 _R_EXPR_BINARY_OP = re.compile(r'^\s*(\*\*|\*|\/|%|\+|-|<=|<|>=|>|==|!=|&&|\|\|)')
 _R_EXPR_UNARY_OP = re.compile(r'^\s*(!|-)')
-_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w+)\s*\(')
+_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w*)\s*\(')
 _R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\s*,')
 _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
-- 
2.43.0


From ab413fd6c2723a1d59016e557d5bc99f6db1dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 17/31] fix: an out-of-range number literal parses to a model
 that fails schema validation

---
 src/bare_script/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index ba3e904..fd39790 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -5,6 +5,7 @@
 The BareScript language parser
 """
 
+import math
 import re
 
 
@@ -575,6 +576,8 @@ def _parse_unary_expression(expr_text):
     match_number = _R_EXPR_NUMBER.match(expr_text)
     if match_number:
         number = float(match_number.group(1))
+        if math.isinf(number):
+            raise BareScriptParserError('Syntax error', expr_text)
         expr = {'number': number}
         return [expr, expr_text[len(match_number.group(0)):]]
 
-- 
2.43.0


From 1a754e5b42da6328df85f674b8de323cff40932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 18/31] fix: a dangling line continuation at end of input is
 silently dropped

---
 src/bare_script/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index fd39790..997cefb 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -405,6 +405,11 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling line continuation?
+    if line_continuation:
+        line = ' '.join(line_continuation)
+        raise BareScriptParserError('Unterminated line continuation', line, 1, start_line_number + ix_line)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
-- 
2.43.0


From d163b1c01de594dcedb1f6e1349e3a5fa15e6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 19/31] fix: a function left open at end of input is silently
 accepted

---
 src/bare_script/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 997cefb..427314b 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -36,6 +36,8 @@ def parse_script(script_text, start_line_number=1):
     line_continuation = []
     function_def = None
     function_label_def_depth = None
+    function_line = None
+    function_line_number = None
     label_defs = []
     label_index = 0
     for ix_line_part, line_part in enumerate(lines):
@@ -90,6 +92,8 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the function definition statement
             function_label_def_depth = len(label_defs)
+            function_line = line
+            function_line_number = start_line_number + ix_line
             function_def = {
                 'function': {
                     'name': match_function_begin.group('name'),
@@ -417,6 +421,10 @@ def parse_script(script_text, start_line_number=1):
         def_ = label_def[def_key]
         raise BareScriptParserError(f"Missing end{def_key} statement", def_['line'], 1, def_['lineNumber'])
 
+    # Dangling function definition?
+    if function_def is not None:
+        raise BareScriptParserError('Missing endfunction statement', function_line, 1, function_line_number)
+
     return script
 
 
-- 
2.43.0


From f83a6f2c336ce7f29cd2be19645acb350fa5d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:29 +0000
Subject: [PATCH 20/31] fix: statements run by an included script are dropped
 from the statement count

---
 src/bare_script/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 8af895b..dc79aaf 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -139,7 +139,10 @@ def _execute_script_helper(statements, options, locals_):
                 # Execute the include script
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
-                _execute_script_helper(script['statements'], include_options, None)
+                try:
+                    _execute_script_helper(script['statements'], include_options, None)
+                finally:
+                    options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From dc08b9142423be2c4c6a47961a1fa47a5df1c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 21/31] fix: a syntax error in a script included by a function
 is swallowed by the function call

---
 src/bare_script/runtime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index dc79aaf..324e682 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -125,7 +125,7 @@ def _execute_script_helper(statements, options, locals_):
                 try:
                     script = parse_script(script_text)
                 except BareScriptParserError as exc:
-                    raise BareScriptParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
+                    raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
 
                 # Run the bare-script linter?
                 if log_fn is not None and options.get('debug'):
@@ -239,7 +239,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             # Call the function
             try:
                 return func_value(func_args, options)
-            except BareScriptRuntimeError:
+            except (BareScriptRuntimeError, _IncludeParserError):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
@@ -387,3 +387,8 @@ class BareScriptRuntimeError(Exception):
 
     def __init__(self, message):
         super().__init__(message)
+
+
+# An included script's parser error - unlike a library function's parser error, its not contained by a function call
+class _IncludeParserError(BareScriptParserError):
+    pass
-- 
2.43.0


From 94f850de376ee41a70109ec2d2f50ae54302d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 22/31] fix: statements run by data expressions with variables
 are dropped from the statement count

---
 src/bare_script/data.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 27a56fe..61bc2fa 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -25,6 +25,15 @@ def _import_evaluate_expression():
 _EVALUATE_EXPRESSION = []
 
 
+# Helper to evaluate a row expression - statements executed using copied options count toward the original options' statement count
+def _evaluate_row(expr, eval_options, options, row):
+    try:
+        return _import_evaluate_expression()(expr, eval_options, row)
+    finally:
+        if options is not None and 'statementCount' in eval_options:
+            options['statementCount'] = eval_options['statementCount']
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -157,8 +166,6 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Compute the map of row field name to joined row field name
     left_names = {}
     right_names_raw = {}
@@ -198,7 +205,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(evaluate_expression(right_expression, eval_options, right_row))
+        category_key = value_json(_evaluate_row(right_expression, eval_options, options, right_row))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -206,7 +213,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(evaluate_expression(left_expression, eval_options, left_row))
+        category_key = value_json(_evaluate_row(left_expression, eval_options, options, left_row))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -237,8 +244,6 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Parse the calculation expression
     calc_expr = parse_expression(expr)
 
@@ -253,7 +258,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
 
     # Compute the calculated field for each row
     for row in data:
-        row[field_name] = evaluate_expression(calc_expr, eval_options, row)
+        row[field_name] = _evaluate_row(calc_expr, eval_options, options, row)
 
     return data
 
@@ -275,8 +280,6 @@ def filter_data(data, expr, variables=None, options=None):
     """
 
     result = []
-    evaluate_expression = _import_evaluate_expression()
-
     # Parse the filter expression
     filter_expr = parse_expression(expr)
 
@@ -291,7 +294,7 @@ def filter_data(data, expr, variables=None, options=None):
 
     # Filter the data
     for row in data:
-        if value_boolean(evaluate_expression(filter_expr, eval_options, row)):
+        if value_boolean(_evaluate_row(filter_expr, eval_options, options, row)):
             result.append(row)
 
     return result
-- 
2.43.0


From 022a453335cb728cd6b99af7f8433653d9ba6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 23/31] fix: a call model without args passes null to the
 function instead of no arguments

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 324e682..5552adb 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -226,7 +226,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Compute the function arguments
         func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
-            if 'args' in expr['function'] else None
+            if 'args' in expr['function'] else []
 
         # Global/local function?
         if locals_ is not None and func_name in locals_:
-- 
2.43.0


From 0fec97f22fc42f031eb171f58819be26677bc720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 24/31] fix: data categories confuse a datetime with its text
 and distinguish 0 from -0

---
 src/bare_script/data.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 61bc2fa..adb049d 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -13,7 +13,7 @@ import statistics
 from schema_markdown import parse_schema_markdown, validate_type
 
 from .parser import parse_expression
-from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
+from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number, value_type
 
 
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
@@ -34,6 +34,12 @@ def _evaluate_row(expr, eval_options, options, row):
             options['statementCount'] = eval_options['statementCount']
 
 
+# Helper to get a category value's key - equal values have equal keys and unequal values (e.g. a datetime and its text) don't
+def _category_key(value):
+    type_ = value_type(value)
+    return (type_, value_json(value + 0 if type_ == 'number' else value))
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -205,7 +211,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(_evaluate_row(right_expression, eval_options, options, right_row))
+        category_key = _category_key(_evaluate_row(right_expression, eval_options, options, right_row))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -213,7 +219,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(_evaluate_row(left_expression, eval_options, options, left_row))
+        category_key = _category_key(_evaluate_row(left_expression, eval_options, options, left_row))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -323,7 +329,7 @@ def aggregate_data(data, aggregation):
         category_values = [row.get(category) for category in categories] if categories is not None else None
 
         # Get or create the aggregate row
-        row_key = value_json(category_values) if category_values is not None else ''
+        row_key = tuple(_category_key(value) for value in category_values) if category_values is not None else ''
         if row_key in category_rows:
             aggregate_row = category_rows[row_key]
         else:
@@ -464,7 +470,7 @@ def top_data(data, count, category_fields=None):
     category_rows = {}
     category_order = []
     for row in data:
-        category_key = '' if category_fields is None else value_json([row.get(field) for field in category_fields])
+        category_key = '' if category_fields is None else tuple(_category_key(row.get(field)) for field in category_fields)
         if category_key not in category_rows:
             category_rows[category_key] = []
             category_order.append(category_key)
-- 
2.43.0


From 3eddde1ffa3794341bac22f75dd6fa50abb5d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 25/31] fix: a function model with lastArgArray false binds its
 first parameter to an array

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 5552adb..c31b4e7 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -157,7 +157,7 @@ def _script_function(function, args, options):
     if func_args is not None:
         args_length = len(args)
         func_args_length = len(func_args)
-        ix_arg_last = function.get('lastArgArray', None) and (func_args_length - 1)
+        ix_arg_last = func_args_length - 1 if function.get('lastArgArray') else None
         for ix_arg in range(func_args_length):
             arg_name = func_args[ix_arg]
             if ix_arg < args_length:
-- 
2.43.0


From 261c7193b278c21e3e4e200f9aa0742ed8cd67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 26/31] fix: an include in a function is resolved against the
 caller's file, not the file containing it

---
 src/bare_script/runtime.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index c31b4e7..57f44a4 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -96,7 +96,7 @@ def _execute_script_helper(statements, options, locals_):
 
         # Function?
         elif statement_key == 'function':
-            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'])
+            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], options.get('urlFn'))
 
         # Include?
         elif statement_key == 'include':
@@ -151,7 +151,7 @@ def _execute_script_helper(statements, options, locals_):
 
 
 # Runtime script function implementation
-def _script_function(function, args, options):
+def _script_function(function, url_fn, args, options):
     func_locals = {}
     func_args = function.get('args')
     if func_args is not None:
@@ -164,6 +164,16 @@ def _script_function(function, args, options):
                 func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
             else:
                 func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
+
+    # Includes within the function are relative to the file that defines the function
+    if options.get('urlFn') is not url_fn:
+        func_options = options.copy()
+        func_options['urlFn'] = url_fn
+        try:
+            return _execute_script_helper(function['statements'], func_options, func_locals)
+        finally:
+            options['statementCount'] = func_options['statementCount']
+
     return _execute_script_helper(function['statements'], options, func_locals)
 
 
-- 
2.43.0


From fbe4fde235befe9f3946512c48447a71d642377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 27/31] fix: text with digit separators (1_000) is parsed as a
 number

---
 src/bare_script/value.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index b61f575..056150c 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -458,6 +458,10 @@ def value_parse_number(text):
     :rtype: float or None
     """
 
+    # Digit separators are Python syntax, not numbers
+    if '_' in text:
+        return None
+
     try:
         value = float(text)
         if math.isnan(value) or math.isinf(value):
@@ -479,6 +483,10 @@ def value_parse_integer(text, radix=10):
     :rtype: int or None
     """
 
+    # Digit separators are Python syntax, not numbers
+    if '_' in text:
+        return None
+
     try:
         return int(text, radix)
     except ValueError:
-- 
2.43.0


From fb06e84d3032044dafdc8119b4f58adcb4c5950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 28/31] fix: ISO datetime text with an out-of-range UTC offset
 minute is not a datetime

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 056150c..ff87358 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -527,7 +527,7 @@ def value_parse_datetime(text):
     return None
 
 _R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})\Z', re.ASCII)
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:[0-5]\d)\Z', re.ASCII)
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From a40e2a3a16d71dfd8201046625d52d16a99e8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 29/31] fix: datetimeMillisecond of the last half millisecond
 of a second is 999, not 1000

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9019870..02e22fd 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -573,7 +573,7 @@ _DATETIMEISO_PARSE_ARGS = value_args_model([
 # $return: The millisecond
 def _datetime_millisecond(args, unused_options):
     datetime_, = value_args_validate(_DATETIME_MILLISECOND_ARGS, args)
-    return int(value_round_number(value_normalize_datetime(datetime_).microsecond / 1000, 0))
+    return value_normalize_datetime(datetime_).microsecond // 1000
 
 _DATETIME_MILLISECOND_ARGS = value_args_model([
     {'name': 'datetime', 'type': 'datetime'}
-- 
2.43.0


From 2989563d5e73d3c3f7668a3e25663312c1a3d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 30/31] fix: dataParseCSV loses line breaks in quoted cells

---
 src/bare_script/library.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 02e22fd..16bfff5 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -9,6 +9,7 @@ import calendar
 import csv
 import datetime
 import functools
+import io
 import json
 import math
 import random
@@ -430,17 +431,17 @@ _DATA_JOIN_ARGS = value_args_model([
 # $arg text...: The CSV text
 # $return: The data array
 def _data_parse_csv(args, unused_options):
-    # Split the input CSV parts into lines
-    lines = []
+    # Get the input CSV parts
+    parts = []
     for arg in args:
         if arg is None:
             continue
         if value_type(arg) != 'string':
             return None
-        lines.extend(arg.splitlines())
+        parts.append(arg if arg == '' or arg.endswith(('\n', '\r')) else f'{arg}\n')
 
-    # Parse the CSV
-    data = list(csv.DictReader(lines, skipinitialspace=True))
+    # Parse the CSV (quoted cells may contain line breaks)
+    data = list(csv.DictReader(io.StringIO(''.join(parts), newline=''), skipinitialspace=True))
 
     # Validate the data (as CSV)
     validate_data(data, True)
-- 
2.43.0


From 44d8b53c0708c7ef778b65d4bb337d430ef6e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:23 +0000
Subject: [PATCH 31/31] fix: CSV date column aborts the parse on text that
 merely resembles a date

---
 src/bare_script/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index adb049d..837279f 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -8,6 +8,7 @@ The BareScript data manipulation library
 import datetime
 import functools
 import importlib
+import re
 import statistics
 
 from schema_markdown import parse_schema_markdown, validate_type
@@ -124,7 +125,10 @@ def validate_data(data, csv=False):
                     else:
                         datetime_value = value_parse_datetime(value)
                         if datetime_value is None:
-                            throw_field_error(field, field_type, value)
+                            # Text that merely resembles a date (e.g. "2024-02-30") is kept as a string
+                            if not _R_DATE_TEXT.match(value):
+                                throw_field_error(field, field_type, value)
+                            datetime_value = value
                     row[field] = datetime_value
                 elif value is not None and not isinstance(value, datetime.date):
                     throw_field_error(field, field_type, value)
@@ -149,6 +153,8 @@ def validate_data(data, csv=False):
 
     return types
 
+_R_DATE_TEXT = re.compile(r'^\d{4}-\d{2}-\d{2}(?:T[\d:.]+(?:Z|[+-]\d{2}:\d{2})?)?\Z', re.ASCII)
+
 
 def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=False, variables=None, options=None):
     """
-- 
2.43.0

