From 65291acf1a0df9c464a77f4b14cf2921aacb9129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 01/50] fix: quote strings of keywords whose schema uses allOf
 when printing

---
 mappyfile/pprint.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 636bd0f..479c314 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -347,6 +347,13 @@ class PrettyPrinter:
             log.error(ex)
             return {}
 
+        if "allOf" in attr_props:
+            # merge in any schemas the keyword has to conform to, as it is
+            # these that describe the types of value
+            attr_props = dict(attr_props)
+            for sub_schema in attr_props.pop("allOf"):
+                attr_props.update(sub_schema)
+
         return attr_props
 
     def is_expression(self, option):
-- 
2.43.0


From 5c412cee1efc8c3efa077cf87ee0ee534515725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 02/50] fix: don't quote attribute bindings in lists such as
 LABEL SHADOWSIZE

---
 mappyfile/pprint.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 479c314..bc48afe 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -436,11 +436,8 @@ class PrettyPrinter:
             new_values = []
 
             for v in value:
-                if not isinstance(v, numbers.Number) and attr not in [
-                    "offset",
-                    "polaroffset",
-                ]:
-                    # don't add quotes to list of attributes for offset / polaroffset
+                if not isinstance(v, numbers.Number) and not self.quoter.in_brackets(v):
+                    # don't add quotes to lists of attributes e.g. for offset / shadowsize
                     v = self.quoter.add_quotes(v)
                 new_values.append(v)
 
-- 
2.43.0


From 0ed9c19fa8474d570d6c846aaade99272f2707cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 03/50] fix: print lists of values for keywords with a string
 or enum schema

---
 mappyfile/pprint.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index bc48afe..4062377 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -383,6 +383,18 @@ class PrettyPrinter:
         if isinstance(value, bool):
             return str(value).upper()
 
+        if isinstance(value, (list, tuple)):
+            # lists are printed as separate values, whichever type the schema has for the keyword
+            new_values = []
+
+            for v in value:
+                if not isinstance(v, numbers.Number) and not self.quoter.in_brackets(v):
+                    # don't add quotes to lists of attributes e.g. for offset / shadowsize
+                    v = self.quoter.add_quotes(v)
+                new_values.append(v)
+
+            return " ".join(list(map(str, new_values)))
+
         if any(i in ["enum"] for i in attr_props):
             if isinstance(value, dict) and not value:
                 raise ValueError(
@@ -432,20 +444,7 @@ class PrettyPrinter:
                 else:
                     value = self.check_options_list(options_list, value)
 
-        if isinstance(value, list):
-            new_values = []
-
-            for v in value:
-                if not isinstance(v, numbers.Number) and not self.quoter.in_brackets(v):
-                    # don't add quotes to lists of attributes e.g. for offset / shadowsize
-                    v = self.quoter.add_quotes(v)
-                new_values.append(v)
-
-            value = " ".join(list(map(str, new_values)))
-        else:
-            value = self.quoter.escape_quotes(value)
-
-        return value
+        return self.quoter.escape_quotes(value)
 
     # pylint: disable=too-many-arguments
     def process_attribute(
-- 
2.43.0


From 76a3f87b183028d53d7b68eabe3ff2ce8628ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 04/50] fix: only print expressions and regular expressions
 unquoted for keywords which allow them

---
 mappyfile/pprint.py | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 4062377..4673f67 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -359,7 +359,23 @@ class PrettyPrinter:
     def is_expression(self, option):
         return "description" in option and (option["description"] == "expression")
 
-    def check_options_list(self, options_list, value):
+    def allows_expression(self, attr_props):
+        """
+        Check if any of the alternatives for a keyword is an expression in brackets
+        """
+        if self.is_expression(attr_props):
+            return True
+
+        if attr_props.get("pattern", "").startswith(r"^\("):
+            return True
+
+        return any(
+            self.allows_expression(option)
+            for key in ("oneOf", "anyOf", "allOf")
+            for option in attr_props.get(key, [])
+        )
+
+    def check_options_list(self, options_list, value, allows_expression):
         for option in options_list:
             if "enum" in option and value.lower() in option["enum"]:
                 if value.lower() == "end":
@@ -367,11 +383,12 @@ class PrettyPrinter:
                     return self.quoter.add_quotes(value)
                 return value.upper()
 
-            if self.is_expression(option):
-                if value.endswith("'i") or value.endswith('"i'):
-                    return value
-
-        if self.quoter.in_slashes(value):
+        if allows_expression and (
+            self.quoter.in_slashes(value)
+            or (value.endswith("i") and self.quoter.in_slashes(value[:-1]))
+            or value.endswith(("'i", '"i'))
+        ):
+            # regular expressions, and case-insensitive strings and regular expressions
             return value
 
         return self.quoter.add_quotes(value)
@@ -431,7 +448,8 @@ class PrettyPrinter:
             else:
                 options_list = attr_props["anyOf"]
             if self.quoter.is_string(value):
-                if self.quoter.in_parenthesis(value):
+                allows_expression = self.allows_expression(attr_props)
+                if allows_expression and self.quoter.in_parenthesis(value):
                     pass
                 elif attr == "expression" and self.quoter.in_braces(value):
                     # don't add quotes to list expressions such as {val1, val2}
@@ -439,10 +457,16 @@ class PrettyPrinter:
                 elif attr != "text" and self.quoter.in_brackets(value):
                     # TEXT expressions are often "[field1]-[field2]" so need to leave quotes for these
                     pass
-                elif value.startswith("NOT ") and self.quoter.in_parenthesis(value[4:]):
+                elif (
+                    allows_expression
+                    and value.startswith("NOT ")
+                    and self.quoter.in_parenthesis(value[4:])
+                ):
                     value = f"NOT {value[4:]}"
                 else:
-                    value = self.check_options_list(options_list, value)
+                    value = self.check_options_list(
+                        options_list, value, allows_expression
+                    )
 
         return self.quoter.escape_quotes(value)
 
-- 
2.43.0


From b2599368a884de7bd73aac8540ebebaba92a7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 05/50] fix: keep values which are not in the list of allowed
 values as they are when printing

---
 mappyfile/pprint.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 4673f67..1a1efe5 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -419,9 +419,12 @@ class PrettyPrinter:
                 )
 
             if not isinstance(value, numbers.Number):
-                if attr == "compop":
-                    return self.quoter.add_quotes(str(value))
-                return str(value).upper()  # value is from a set list, no need for quote
+                value = str(value)
+                if self.quoter.in_brackets(value):
+                    return value  # attribute binding
+                if attr == "compop" or value.lower() not in attr_props["enum"]:
+                    return self.quoter.add_quotes(value)
+                return value.upper()  # value is from a set list, no need for quote
 
             return value
 
-- 
2.43.0


From 9b116a5fa8690e022118979fceb472ad91dff001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 06/50] fix: refuse to print values with no Mapfile
 representation such as empty auto-created dicts

---
 mappyfile/pprint.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 1a1efe5..d05fab8 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -184,6 +184,7 @@ class PrettyPrinter:
 
         for k, v in d.items():
             if not self.__is_metadata(k):
+                self.check_has_text(k, v)
                 qk = self.quoter.add_quotes(k)
                 qv = self.quoter.add_quotes(v)
                 line = self.__format_line(
@@ -200,6 +201,7 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
+            self.check_has_text(k, v)
             cfg_val = self.quoter.add_quotes(k.upper())
             k = f"CONFIG {cfg_val}"
             v = self.quoter.add_quotes(v)
@@ -393,10 +395,22 @@ class PrettyPrinter:
 
         return self.quoter.add_quotes(value)
 
+    def check_has_text(self, attr: str, value: Any) -> None:
+        """
+        Check a value can be written to a Mapfile. For example this is not possible
+        for an empty dict automatically created when reading a missing key
+        """
+        if value is None or isinstance(value, dict):
+            raise ValueError(
+                f"The property {attr} has a value that cannot be written to a Mapfile: {value}"
+            )
+
     def format_value(self, attr: str, attr_props, value: Any) -> Any:
         """
         TODO - refactor and add more specific tests (particularly for expressions)
         """
+        self.check_has_text(attr, value)
+
         if isinstance(value, bool):
             return str(value).upper()
 
@@ -413,11 +427,6 @@ class PrettyPrinter:
             return " ".join(list(map(str, new_values)))
 
         if any(i in ["enum"] for i in attr_props):
-            if isinstance(value, dict) and not value:
-                raise ValueError(
-                    f"The property {attr} has an empty dictionary as a value"
-                )
-
             if not isinstance(value, numbers.Number):
                 value = str(value)
                 if self.quoter.in_brackets(value):
@@ -562,6 +571,10 @@ class PrettyPrinter:
                 # now recursively print all the items in the container
                 for v in value:
                     lines += self._format(v, level + 1)
+            elif attr in ("pattern", "projection", "points") + REPEATED_KEYS and (
+                isinstance(value, dict)
+            ):
+                self.check_has_text(attr, value)
             elif attr == "pattern":
                 lines += self.format_pair_list(attr, value, level)
             elif attr in ("metadata", "validation", "values", "connectionoptions"):
-- 
2.43.0


From dcdf3fbeb7a70a906ef0b63b2c51e10e6e7f00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 07/50] fix: allow a GRID block at the root of a partial
 Mapfile

---
 mappyfile/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index ef2f081..f3b748f 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -224,7 +224,10 @@ class Parser:
                         t.type = "UNQUOTED_STRING_VALUE"
                 elif t.type == "GRID":
                     # Unquoted 'GRID' coming after NAME is always a value, not a composite type
-                    if ip.parser_state.value_stack[-1] == "NAME":
+                    # GRID can also be the very first token, when the stack is still empty
+                    if ip.parser_state.value_stack and (
+                        ip.parser_state.value_stack[-1] == "NAME"
+                    ):
                         t.type = "UNQUOTED_STRING_VALUE"
 
             tree = ip.resume_parse()
-- 
2.43.0


From 5c2e98b37e3fc7db4ae75748162a42aa2a313f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 08/50] fix: allow BACKGROUNDCOLOR and INCLUDE as the first
 keyword of a SYMBOL

---
 mappyfile/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index f3b748f..12a8d2d 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -55,9 +55,11 @@ if use_cython:
 SYMBOL_ATTRIBUTES = {
     "ANCHORPOINT",
     "ANTIALIAS",
+    "BACKGROUNDCOLOR",
     "FILLED",
     "FONT",
     "IMAGE",
+    "INCLUDE",
     "NAME",
     "COLOR",
     "TYPE",
-- 
2.43.0


From ac6ca7bae440a3f0f4b5754f5c399b26259d137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 09/50] fix: allow a lower-case SYMBOL keyword followed by an
 unquoted value

---
 mappyfile/parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 12a8d2d..13c2593 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -205,6 +205,14 @@ class Parser:
         text = self.open_file(fn)
         return self.parse(text, fn=fn)
 
+    def _last_token_type(self, ip: Any) -> str | None:
+        """
+        Get the type of the last token, or None if there is no previous token
+        or it was already processed
+        """
+        value_stack = ip.parser_state.value_stack
+        return getattr(value_stack[-1], "type", None) if value_stack else None
+
     def parse(self, text: str, fn: str | None = None) -> Any:
         """
         Parse the Mapfile
@@ -220,7 +228,7 @@ class Parser:
                 if t.type == "UNQUOTED_STRING":
                     # Unquoted strings after SYMBOL can only be values, not attributes
                     if (
-                        ip.parser_state.value_stack[-1] == "SYMBOL"
+                        self._last_token_type(ip) == "SYMBOL"
                         and t.value.upper() not in SYMBOL_ATTRIBUTES
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
-- 
2.43.0


From a4b97e3281ed1ff07f7cdfe48dcdc969e2cbb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 10/50] fix: allow QUERYMAP STYLE NORMAL before other keywords

---
 mappyfile/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 13c2593..c2644ae 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -232,6 +232,12 @@ class Parser:
                         and t.value.upper() not in SYMBOL_ATTRIBUTES
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
+                    # QUERYMAP has a STYLE keyword, NORMAL is never a keyword of a STYLE block
+                    elif (
+                        self._last_token_type(ip) == "STYLE"
+                        and t.value.upper() == "NORMAL"
+                    ):
+                        t.type = "UNQUOTED_STRING_VALUE"
                 elif t.type == "GRID":
                     # Unquoted 'GRID' coming after NAME is always a value, not a composite type
                     # GRID can also be the very first token, when the stack is still empty
-- 
2.43.0


From c3e6023b9d9496938e955aa7f23bc76528f8480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 11/50] fix: find and findall skip items without the key, and
 findall matches whole values

---
 mappyfile/dictutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index bc6e1ee..7ac77a7 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -78,7 +78,8 @@ def find(lst: list[dict], key: str, value: Any) -> dict | None:
         cmp = mappyfile.find(d["layers"], "name", "Layer2")
         assert cmp["name"] == "Layer2"
     """
-    return next((item for item in lst if item[key.lower()] == value), None)
+    k = key.lower()
+    return next((item for item in lst if k in item and item[k] == value), None)
 
 
 def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
@@ -136,7 +137,9 @@ def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
         layers = mappyfile.findall(d["layers"], "group", "test")
         assert len(layers) == 2
     """
-    return [item for item in lst if item[key.lower()] and item[key.lower()] in value]
+    k = key.lower()
+    values = value if isinstance(value, (list, tuple, set, frozenset)) else [value]
+    return [item for item in lst if k in item and any(item[k] == v for v in values)]
 
 
 def findunique(lst, key):
-- 
2.43.0


From 90359f87909ede958e42bbdc8d6d8c2dee457679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 12/50] fix: deleting a missing key with update leaves the
 dictionary unchanged

---
 mappyfile/dictutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 7ac77a7..e96e089 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -284,7 +284,7 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
         if isinstance(v, dict):
             if v.get("__delete__", False):
                 # allow a __delete__ property to be set to delete objects
-                del d1[k]
+                d1.pop(k, None)
             else:
                 d1[k] = update(d1.get(k, {}), v, overwrite)
         elif isinstance(v, (tuple, list)) and all(
@@ -311,8 +311,8 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
                     new_list.append(d)
             d1[k] = new_list
         else:
-            if k in d1 and v == "__delete__":
-                del d1[k]
+            if v == "__delete__":
+                d1.pop(k, None)
             else:
                 if overwrite is True or k not in d1:
                     d1[k] = v
-- 
2.43.0


From be0d1339042c500f2c721476682408fb70bbd22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 13/50] fix: keep the outer brackets of expressions such as
 ((a) * (b))

---
 mappyfile/transformer.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 44d662b..83d14cf 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -62,6 +62,12 @@ else:
 log = logging.getLogger("mappyfile")
 
 
+class Calculation(str):
+    """
+    Two operands joined by an arithmetic operator, without any enclosing brackets
+    """
+
+
 class MapfileTransformer(Transformer):
     def __init__(self, include_position: bool = False, include_comments: bool = False):
         self.quoter = Quoter()
@@ -488,35 +494,33 @@ class MapfileTransformer(Transformer):
             [str(v.value) for v in t]
         )  # convert to string for boolean expressions e.g. (true)
 
-        if not self.quoter.in_parenthesis(exp):
+        # the brackets at each end of e.g. "(a) * (b)" are not a pair
+        is_calculation = isinstance(t[0].value, Calculation)
+
+        if is_calculation or not self.quoter.in_parenthesis(exp):
             t[0].value = f"({exp})"
 
         return t[0]
 
     def add(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} + {t[1].value}"
-        return t[0]
+        return update_token_value(t[0], Calculation(f"{t[0].value} + {t[1].value}"))
 
     def sub(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} - {t[1].value}"
-        return t[0]
+        return update_token_value(t[0], Calculation(f"{t[0].value} - {t[1].value}"))
 
     def div(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} / {t[1].value}"
-        return t[0]
+        return update_token_value(t[0], Calculation(f"{t[0].value} / {t[1].value}"))
 
     def mul(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} * {t[1].value}"
-        return t[0]
+        return update_token_value(t[0], Calculation(f"{t[0].value} * {t[1].value}"))
 
     def power(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} ^ {t[1].value}"
-        return t[0]
+        return update_token_value(t[0], Calculation(f"{t[0].value} ^ {t[1].value}"))
 
     def neg(self, t):
         assert len(t) == 1
-- 
2.43.0


From d3cabe2a8b88cbae01fd22dc84596f1b125d2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 14/50] fix: the modulo operator has the same precedence as
 multiplication in expressions

---
 mappyfile/mapfile.lark   | 3 ++-
 mappyfile/transformer.py | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 6144ea4..fe4434b 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -88,7 +88,7 @@ expression: "(" or_test ")"
 ?or_test : (or_test ("OR"i|"||"))? and_test
 ?and_test : (and_test ("AND"i|"&&"))? comparison
 ?comparison: (comparison compare_op)? sum
-!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">" | "%"
+!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">"
 | "<=" | "IN"i | "NE"i | "EQ"i | "LE"i | "LT"i | "GE"i | "GT"i | "LIKE"i
 
 ?sum: product
@@ -98,6 +98,7 @@ expression: "(" or_test ")"
 ?product: unary_expr
     | product "*" unary_expr -> mul
     | product "/" unary_expr -> div
+    | product "%" unary_expr -> modulo
     | product "^" unary_expr -> power
 
 ?unary_expr: atom
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 83d14cf..875ee2a 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -518,6 +518,11 @@ class MapfileTransformer(Transformer):
         assert len(t) == 2
         return update_token_value(t[0], Calculation(f"{t[0].value} * {t[1].value}"))
 
+    def modulo(self, t):
+        assert len(t) == 2
+        t[0].value = f"( {t[0].value} % {t[1].value} )"
+        return t[0]
+
     def power(self, t):
         assert len(t) == 2
         return update_token_value(t[0], Calculation(f"{t[0].value} ^ {t[1].value}"))
-- 
2.43.0


From 12a8638d805f923d396a6e0c869df03341165046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 15/50] fix: keep hex colours in expressions verbatim

---
 mappyfile/transformer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 875ee2a..0ea1467 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -329,7 +329,13 @@ class MapfileTransformer(Transformer):
             values = value_token.value
 
             if self.quoter.is_string(values):
+                is_hexcolor = values[1:2] == "#" and value_token.type in (
+                    "DOUBLE_QUOTED_HEXCOLOR",
+                    "SINGLE_QUOTED_HEXCOLOR",
+                )
                 values = self.clean_string(values)  # type: ignore
+                if is_hexcolor:
+                    values = values.lower()
 
         d[key_name] = values
 
@@ -628,10 +634,12 @@ class MapfileTransformer(Transformer):
 
     def hexcolorrange(self, t):
         assert len(t) == 2
+        for color in t:
+            color.value = self.clean_string(color.value).lower()
         return t
 
     def hexcolor(self, t):
-        t[0].value = self.clean_string(t[0].value).lower()
+        # any quotes are removed in attr, as they are kept when used in an expression
         return t[0]
 
     def num_pair(self, t):
-- 
2.43.0


From 8d81a61932a256afe464c80ab5952556357cd3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 16/50] fix: report schema errors within list values, with the
 position of the enclosing keyword

---
 mappyfile/validator.py | 62 +++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index c699e8f..e7edbff 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -196,6 +196,29 @@ class Validator:
 
         return x
 
+    def _get_child(self, node: Any, key: Any) -> Any:
+        """
+        Get an item using a lowercase key or a list index
+        """
+        if isinstance(node, dict):
+            return next(v for k, v in node.items() if k.lower() == key)
+
+        return node[key]
+
+    def _get_child_position(self, pd: Any, key: Any) -> Any:
+        """
+        Get the position of a keyword (or of one of its values if it is repeated),
+        if it has not got its own position return the position of its parent
+        """
+        if isinstance(pd, list):
+            return pd[key] if isinstance(key, int) and key < len(pd) else pd
+
+        if isinstance(pd, dict) and isinstance(pd.get(key), (dict, list)):
+            if key != "values" or "line" not in pd:
+                return pd[key]
+
+        return pd
+
     def create_message(
         self, rootdict: dict, path: str, error, add_comments: bool
     ) -> dict:
@@ -210,17 +233,26 @@ class Validator:
         See https://github.com/Julian/jsonschema/issues/119
         """
 
-        if not path:
-            # error applies to the root type
-            d = rootdict
-            key = d["__type__"]
-        elif isinstance(path[-1], int):
-            # the error is on an object in a list
-            d = dictutils.findkey(rootdict, *path)
+        # find the object and the keyword the error applies to, the path can continue
+        # into the values of a keyword e.g. ["size", 0] or ["points", 0, 1]
+        d = node = rootdict
+        key = None
+        pd = rootdict.get("__position__")
+
+        for p in path:
+            node = self._get_child(node, p)
+            if isinstance(node, dict) and "__type__" in node:
+                d, key = node, None
+                pd = node.get("__position__")
+            elif isinstance(p, str):
+                key = p
+                pd = self._get_child_position(pd, p)
+            else:
+                pd = self._get_child_position(pd, p)
+
+        if key is None:
+            # the error is on an object
             key = d["__type__"]
-        else:
-            key = path[-1]
-            d = dictutils.findkey(rootdict, *path[:-1])
 
         error_message = f"ERROR: Invalid value in {key.upper()}"
 
@@ -237,13 +269,11 @@ class Validator:
         # add in details of the error line, when Mapfile was parsed to
         # include position details
 
-        if "__position__" in d:
-            if not path or key not in d["__position__"]:
-                # position for the root object is stored in the root of the dict
-                pd = d["__position__"]
-            else:
-                pd = d["__position__"][key]
+        # a keyword that is repeated has several positions, use the first one
+        while pd and "line" not in pd:
+            pd = pd[0] if isinstance(pd, list) else next(iter(pd.values()))
 
+        if pd:
             error_dict["line"] = pd.get("line")
             error_dict["column"] = pd.get("column")
 
-- 
2.43.0


From 60c8d26a3d6643b4fa28ced37c52b452a91816e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 17/50] fix: validate each root object against the schema for
 its own type

---
 mappyfile/validator.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index e7edbff..f332cc3 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -307,28 +307,44 @@ class Validator:
         self,
         value: Any,
         add_comments: bool = False,
-        schema_name: str = "map",
+        schema_name: (str | None) = None,
         version: (float | None) = None,
     ):
         """
         verbose - also return the jsonschema error details
+        If no schema_name is provided then the schema is based on the __type__ of each root dictionary
         """
-        if version:
-            jsn_schema = self.get_versioned_schema(version, schema_name)
-            validator = jsonschema.Draft4Validator(schema=jsn_schema)
-        else:
-            validator = self.get_schema_validator(schema_name)
-
         error_messages = []
+        validators: dict = {}
 
-        if isinstance(value, list):
-            for d in value:
-                error_messages += self._get_errors(d, validator, add_comments)
-        else:
-            error_messages = self._get_errors(value, validator, add_comments)
+        for d in value if isinstance(value, list) else [value]:
+            name = schema_name or self.get_root_schema_name(d)
+
+            if name not in validators:
+                if version:
+                    jsn_schema = self.get_versioned_schema(version, name)
+                    validators[name] = jsonschema.Draft4Validator(schema=jsn_schema)
+                else:
+                    validators[name] = self.get_schema_validator(name)
+
+            error_messages += self._get_errors(d, validators[name], add_comments)
 
         return error_messages
 
+    def get_root_schema_name(self, d: dict) -> str:
+        """
+        Get the name of the schema for a root dictionary, this is the map
+        schema if the dictionary has not got a type with its own schema
+        """
+        schema_name = str(d.get("__type__", "map")).lower()
+
+        try:
+            self.get_schema_file(schema_name)
+        except IOError:
+            return "map"
+
+        return schema_name
+
     def get_expanded_schema(
         self, schema_name: str, version: (float | None) = None
     ) -> dict:
-- 
2.43.0


From 39340cabc5d8a65edd43684d431a260d31a9ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 18/50] fix: record the position of the SYMBOLSET keyword

---
 mappyfile/mapfile.lark   | 4 +++-
 mappyfile/transformer.py | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index fe4434b..9b98d0e 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -27,7 +27,7 @@
 // 
 // =================================================================
 
-start: "SYMBOLSET"i composite_body _END   -> symbolset
+start: symbolset_type composite_body _END   -> symbolset
      | composite+
 
 composite: composite_type composite_body _END
@@ -114,6 +114,8 @@ func_params: value ("," value)*
 !true: "TRUE"i
 !false: "FALSE"i
 
+!symbolset_type: "SYMBOLSET"i -> composite_type
+
 !composite_type: "CLASS"i
             | "CLUSTER"i
             | "COMPOSITE"i
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 0ea1467..ab54db3 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -35,7 +35,6 @@ Python dict structure
 from __future__ import annotations
 import logging
 from collections import OrderedDict
-from lark import Tree
 from lark.visitors import Transformer_InPlace, Transformer, v_args
 from lark.lexer import Token
 from .parser import lark_cython
@@ -775,10 +774,7 @@ class MapfileToDict:
 class Canonize(Transformer_InPlace):
     @v_args(tree=True)
     def symbolset(self, tree):
-        composite_type = Tree("composite_type", [Token("symbolset", "symbolset")])
-
         tree.data = "composite"
-        tree.children.insert(0, composite_type)
         return tree
 
 
-- 
2.43.0


From 4dc319950566618a8c71e6779b849eb8c0688ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 19/50] fix: validate command fails for files which can't be
 parsed and any number of errors

---
 mappyfile/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 0fd14df..8a94e41 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -219,6 +219,7 @@ def validate(_, mapfiles, expand, version):
         except Exception as ex:
             logger.exception(ex)
             click.echo(f"{fn} failed to parse successfully")
+            errors += 1
             continue
 
         validation_messages = mappyfile.validate(d, version)
@@ -238,7 +239,8 @@ def validate(_, mapfiles, expand, version):
     click.echo(
         f"{len(all_mapfiles)} file(s) validated ({validation_count} successfully)"
     )
-    sys.exit(errors)
+    # an exit status is limited to a single byte
+    sys.exit(min(errors, 255))
 
 
 @main.command(short_help="Export a Mapfile Schema")
-- 
2.43.0


From 7f2b4974d6e0b2b836c06fb051da147687faa9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 20/50] fix: only expand INCLUDE keywords followed by a
 filename, and allow any characters in quoted filenames

---
 mappyfile/parser.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index c2644ae..8bd84d4 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import os
+import re
 import logging
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
@@ -69,6 +70,13 @@ SYMBOL_ATTRIBUTES = {
 }
 
 
+# an INCLUDE directive followed by a quoted, or unquoted filename
+INCLUDE_LINE = re.compile(
+    r"""\s*include(?:\s+|(?=["']))(?P<fn>"[^"]+"|'[^']+'|[^\s#]+)(?P<other>.*)""",
+    re.IGNORECASE | re.DOTALL,
+)
+
+
 class Parser:
     def __init__(
         self, expand_includes: bool = True, include_comments: bool = False, **kwargs
@@ -96,20 +104,24 @@ class Parser:
 
         return Lark.open("mapfile.lark", rel_to=__file__, parser="lalr", **extra_args)
 
-    def _get_include_filename(self, line: str) -> str:
-        if "#" in line:
-            # remove any comments on the same line
-            line = line.split("#")[0]
+    def _get_include_filename(self, line: str) -> str | None:
+        """
+        Get the filename from an INCLUDE line, or None if
+        the line is not an INCLUDE directive with a filename
+        """
+        match = INCLUDE_LINE.match(line)
 
-        include_pairs = line.split()
-        if len(include_pairs) > 2:
+        if match is None:
+            return None
+
+        # ignore any comments on the same line
+        if match["other"].split("#")[0].strip():
             log.warning(
                 "Multiple include files have been found on the same line. "
                 "Only the first will be used. "
             )
-        inc_file_path = include_pairs[1]
 
-        return inc_file_path.strip("'").strip('"')
+        return match["fn"].strip("'").strip('"')
 
     def load_includes(
         self, text: str, fn: str | None = None, _nested_includes: int = 0
@@ -121,12 +133,12 @@ class Parser:
         lines = text.split("\n")
         includes = {}
         for idx, l in enumerate(lines):
-            if l.strip().lower().startswith("include"):
+            inc_file_path = self._get_include_filename(l)
+
+            if inc_file_path is not None:
                 if _nested_includes == 5:
                     raise ValueError("Maximum nested include exceeded! (MaxNested=5)")
 
-                inc_file_path = self._get_include_filename(l)
-
                 if not os.path.isabs(inc_file_path):
                     inc_file_path = os.path.abspath(
                         os.path.join(os.path.dirname(fn), inc_file_path)
-- 
2.43.0


From e1fc8c1dbf82e266116de8c84abe2e0bdc8c96ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 21/50] fix: assign comments to nodes in linear time

---
 mappyfile/parser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 8bd84d4..5e51085 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -31,6 +31,7 @@ from __future__ import annotations
 import os
 import re
 import logging
+from collections import OrderedDict
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
 from typing import Any, IO
@@ -178,12 +179,10 @@ class Parser:
 
                 if node.data in ("projection"):
                     line = node.meta.end_line
-                line_numbers = list(sorted(self.comments_dict.keys()))
                 comments = []
 
-                for line_number in line_numbers:
-                    if line_number <= line:
-                        comments.append(self.comments_dict.pop(line_number))
+                while self.comments_dict and next(iter(self.comments_dict)) <= line:
+                    comments.append(self.comments_dict.popitem(last=False)[1])
 
                 if comments:
                     node.meta.comments = comments  # type: ignore
@@ -260,10 +259,11 @@ class Parser:
 
             tree = ip.resume_parse()
             if self.include_comments:
-                self.comments_dict = {}
                 # create a dictionary using line numbers as keys, and comments as values
-                for c in self._comments:
-                    self.comments_dict[c.line] = c.value.strip()
+                # ordered by line number
+                self.comments_dict = OrderedDict(
+                    sorted({c.line: c.value.strip() for c in self._comments}.items())
+                )
                 self._assign_comments(tree)
 
             return tree
-- 
2.43.0


From d301637b5994364571d1963f7134e60c67503571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:53 +0000
Subject: [PATCH 22/50] fix: keep the elements of list expressions verbatim

---
 mappyfile/mapfile.lark   | 8 +++++++-
 mappyfile/transformer.py | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 9b98d0e..533ef2a 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -77,7 +77,13 @@ float_pair: float float
 path: PATH
 regexp: REGEXP1 | REGEXP2
 runtime_var: RUNTIME_VAR
-list: "{" (value | UNQUOTED_STRING_SPACE) ("," (value | UNQUOTED_STRING_SPACE))* "}"
+list: "{" (_list_value | UNQUOTED_STRING_SPACE) ("," (_list_value | UNQUOTED_STRING_SPACE))* "}"
+
+// numbers and booleans in a list are not converted, so their text is kept
+_list_value: string | list_literal | expression | not_expression | attr_bind | path
+| regexp | runtime_var | list | NULL | hexcolor | _attr_keyword
+
+!list_literal: SIGNED_INT | SIGNED_FLOAT | "TRUE"i | "FALSE"i
 
 num_pair: (int|float) (int|float)
 
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index ab54db3..5516147 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -652,10 +652,13 @@ class MapfileTransformer(Transformer):
     def list(self, t):
         # http://www.mapserver.org/mapfile/expressions.html#list-expressions
         v = t[0]
-        list_values = ",".join([str(s) for s in t])
+        list_values = ",".join([str(s.value) for s in t])
         v.value = "{%s}" % list_values
         return v
 
+    def list_literal(self, t):
+        return t[0]
+
 
 class CommentsTransformer(Transformer_InPlace):
     """
-- 
2.43.0


From 46e9ee07963d1026c6d695b5b4326c3c7cdd5f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 23/50] fix: keep numbers and booleans in expressions as they
 are written

---
 mappyfile/mapfile.lark   | 12 ++++++------
 mappyfile/transformer.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 533ef2a..e9a92df 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -77,13 +77,13 @@ float_pair: float float
 path: PATH
 regexp: REGEXP1 | REGEXP2
 runtime_var: RUNTIME_VAR
-list: "{" (_list_value | UNQUOTED_STRING_SPACE) ("," (_list_value | UNQUOTED_STRING_SPACE))* "}"
+list: "{" (_operand | UNQUOTED_STRING_SPACE) ("," (_operand | UNQUOTED_STRING_SPACE))* "}"
 
-// numbers and booleans in a list are not converted, so their text is kept
-_list_value: string | list_literal | expression | not_expression | attr_bind | path
+// the values in lists and expressions, where numbers and booleans are not converted so their text is kept
+_operand: string | literal | expression | not_expression | attr_bind | path
 | regexp | runtime_var | list | NULL | hexcolor | _attr_keyword
 
-!list_literal: SIGNED_INT | SIGNED_FLOAT | "TRUE"i | "FALSE"i
+!literal: SIGNED_INT | SIGNED_FLOAT | "TRUE"i | "FALSE"i
 
 num_pair: (int|float) (int|float)
 
@@ -111,11 +111,11 @@ expression: "(" or_test ")"
     | "-" unary_expr -> neg
     | "+" unary_expr
 
-?atom: (func_call | value)
+?atom: (func_call | _operand)
 // ?multiply: (multiply "*")? (func_call | value)
 
 func_call: UNQUOTED_STRING "(" func_params ")"
-func_params: value ("," value)*
+func_params: _operand ("," _operand)*
 
 !true: "TRUE"i
 !false: "FALSE"i
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 5516147..5fe3c4d 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -656,7 +656,7 @@ class MapfileTransformer(Transformer):
         v.value = "{%s}" % list_values
         return v
 
-    def list_literal(self, t):
+    def literal(self, t):
         return t[0]
 
 
-- 
2.43.0


From d3ef9680df610495f33d08f5dc097c199ae681b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 24/50] fix: bare words after the first keyword of a block are
 values, even if they match a block keyword

---
 mappyfile/parser.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 5e51085..f696cbc 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -34,6 +34,7 @@ import logging
 from collections import OrderedDict
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
+from mappyfile.tokens import COMPLEX_TYPES
 from typing import Any, IO
 
 
@@ -71,6 +72,10 @@ SYMBOL_ATTRIBUTES = {
 }
 
 
+# keywords which start a block, or a CONFIG pair
+BLOCK_KEYWORDS = COMPLEX_TYPES | {"config"}
+
+
 # an INCLUDE directive followed by a quoted, or unquoted filename
 INCLUDE_LINE = re.compile(
     r"""\s*include(?:\s+|(?=["']))(?P<fn>"[^"]+"|'[^']+'|[^\s#]+)(?P<other>.*)""",
@@ -224,6 +229,16 @@ class Parser:
         value_stack = ip.parser_state.value_stack
         return getattr(value_stack[-1], "type", None) if value_stack else None
 
+    def _is_first_keyword(self, value_stack: list[Any]) -> bool:
+        """
+        Check if the last token is a keyword directly after the opening keyword of a block
+        """
+        return (
+            len(value_stack) > 1
+            and getattr(value_stack[-1], "type", None) == "UNQUOTED_STRING"
+            and getattr(value_stack[-2], "data", None) == "composite_type"
+        )
+
     def parse(self, text: str, fn: str | None = None) -> Any:
         """
         Parse the Mapfile
@@ -249,12 +264,10 @@ class Parser:
                         and t.value.upper() == "NORMAL"
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
-                elif t.type == "GRID":
-                    # Unquoted 'GRID' coming after NAME is always a value, not a composite type
-                    # GRID can also be the very first token, when the stack is still empty
-                    if ip.parser_state.value_stack and (
-                        ip.parser_state.value_stack[-1] == "NAME"
-                    ):
+                elif t.type.lower() in BLOCK_KEYWORDS:
+                    # Unquoted words such as 'GRID' coming after the first keyword
+                    # of a block are always values, not the start of a new block
+                    if self._is_first_keyword(ip.parser_state.value_stack):
                         t.type = "UNQUOTED_STRING_VALUE"
 
             tree = ip.resume_parse()
-- 
2.43.0


From 87c8c631fe25d554027ee28a35bfa56a4e78f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 25/50] fix: quote strings when printing keywords with a number
 schema

---
 mappyfile/pprint.py | 8 ++++++++
 mappyfile/quoter.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index d05fab8..942e62c 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -479,6 +479,14 @@ class PrettyPrinter:
                     value = self.check_options_list(
                         options_list, value, allows_expression
                     )
+        elif (
+            attr_props
+            and self.quoter.is_string(value)
+            and not self.quoter.in_brackets(value)
+            and not self.quoter.is_runtime_variable(value)
+        ):
+            # a string for a keyword which should be a number, or list of numbers
+            value = self.quoter.add_quotes(value)
 
         return self.quoter.escape_quotes(value)
 
diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index 3d2b690..b8bcfdd 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import logging
+import re
 from typing import Any
 
 
@@ -108,6 +109,9 @@ class Quoter:
         val = val.strip()
         return self._in_quotes(val, "/")
 
+    def is_runtime_variable(self, val: str) -> bool:
+        return re.fullmatch("%[^%\\n]*%", val) is not None
+
     def standardise_quotes(self, val: str) -> str:
         """
         Change the quotes used to wrap a value to the pprint default
-- 
2.43.0


From e74d80aff1d0dc67d036158f4d349a30217eacc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 26/50] fix: only print strings such as [field] as attribute
 bindings

---
 mappyfile/quoter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index b8bcfdd..3899ff9 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -94,8 +94,11 @@ class Quoter:
         return val
 
     def in_brackets(self, val: str) -> bool:
-        val = val.strip()
-        return val.startswith("[") and val.endswith("]")
+        """
+        Check if a value is an attribute binding such as [field]. Strings such
+        as "[field1]-[field2]" are not bindings
+        """
+        return re.fullmatch(r"\[[a-z0-9_\xc0-\xff\-:]+\]", val, re.I) is not None
 
     def in_parenthesis(self, val: str) -> bool:
         val = val.strip()
-- 
2.43.0


From fb53046dda06952fa6b20a84a9642ad1fad1b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 27/50] fix: refuse to print any value, or value in a list,
 with no Mapfile representation, and print a single string as a repeated
 keyword

---
 mappyfile/pprint.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 942e62c..cd81c8c 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import logging
+import math
 import numbers
 from mappyfile.tokens import (
     COMPOSITE_NAMES,
@@ -184,7 +185,7 @@ class PrettyPrinter:
 
         for k, v in d.items():
             if not self.__is_metadata(k):
-                self.check_has_text(k, v)
+                self.check_has_text(k, [v])
                 qk = self.quoter.add_quotes(k)
                 qv = self.quoter.add_quotes(v)
                 line = self.__format_line(
@@ -201,7 +202,7 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
-            self.check_has_text(k, v)
+            self.check_has_text(k, [v])
             cfg_val = self.quoter.add_quotes(k.upper())
             k = f"CONFIG {cfg_val}"
             v = self.quoter.add_quotes(v)
@@ -216,7 +217,11 @@ class PrettyPrinter:
         """
         lines = []
 
+        if self.quoter.is_string(lst):
+            lst = [str(lst)]  # a single value has been manually set
+
         for v in lst:
+            self.check_has_text(key, [v])
             k = key.upper()
             v = self.quoter.add_quotes(v)
             lines.append(
@@ -243,6 +248,7 @@ class PrettyPrinter:
             lines.append(f"{whitespace}AUTO")
         else:
             for v in lst:
+                self.check_has_text(key, [v])
                 v = self.quoter.add_quotes(v)
                 lines.append(f"{whitespace}{v}")
 
@@ -256,6 +262,11 @@ class PrettyPrinter:
 
         lines = [self.add_start_line(key, level)]
 
+        for p in pair_list:
+            if len(p) != 2:
+                raise ValueError(f"The property {key} needs pairs of numbers: {p}")
+            self.check_has_text(key, p)
+
         list_spacer = self.spacer * (level + 2)
         pairs = [f"{list_spacer}{p[0]} {p[1]}" for p in pair_list]
         lines += pairs
@@ -395,12 +406,20 @@ class PrettyPrinter:
 
         return self.quoter.add_quotes(value)
 
+    def has_text(self, value: Any) -> bool:
+        if isinstance(value, numbers.Number):
+            # there is no way to write complex numbers, nan and inf
+            return not isinstance(value, complex) and math.isfinite(value)
+        return self.quoter.is_string(value)
+
     def check_has_text(self, attr: str, value: Any) -> None:
         """
         Check a value can be written to a Mapfile. For example this is not possible
         for an empty dict automatically created when reading a missing key
         """
-        if value is None or isinstance(value, dict):
+        values = value if isinstance(value, (list, tuple)) and value else [value]
+
+        if not all(self.has_text(v) for v in values):
             raise ValueError(
                 f"The property {attr} has a value that cannot be written to a Mapfile: {value}"
             )
-- 
2.43.0


From 5560673bc9173245c4054e998f4622b566da06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:52 +0000
Subject: [PATCH 28/50] fix: separate complex types of ordinary dictionaries

---
 mappyfile/dictutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index e96e089..99f7d4f 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -320,4 +320,5 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
 
 
 def dict_move_to_end(ordered_dict, key):
-    ordered_dict.move_to_end(key)
+    # works for any type of dictionary
+    ordered_dict[key] = ordered_dict.pop(key)
-- 
2.43.0


From a64ee505e640fbc606ce4b985983952673473429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:52 +0000
Subject: [PATCH 29/50] fix: don't separate the simple keywords SYMBOL,
 SYMBOLSET and STYLE as complex types

---
 mappyfile/pprint.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index cd81c8c..a05655d 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -302,13 +302,14 @@ class PrettyPrinter:
         return False
 
     def is_complex_type(self, composite: dict, key: str, level: int) -> bool:
-        # symbol needs special treatment
-        if key == "symbol" and level > 0:
+        value = composite[key]
+        # SYMBOL, SYMBOLSET and STYLE (in a QUERYMAP) can also be simple keywords
+        if key in ("symbol", "symbolset", "style") and not self.is_composite(value):
             return False
         return (
             key in COMPLEX_TYPES
-            or self.is_composite(key)
-            or self.is_hidden_container(key, composite[key])
+            or self.is_composite(value)
+            or self.is_hidden_container(key, value)
         )
 
     def is_hidden_container(self, key: str, val: Any) -> bool:
-- 
2.43.0


From c4685239b4823fa58abe0472cab1afda9a8c619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 30/50] fix: unquoted words after a key in METADATA,
 VALIDATION, VALUES, CONNECTIONOPTIONS and CONFIG are values, even if they
 match a keyword

---
 mappyfile/parser.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index f696cbc..a879e72 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -75,6 +75,9 @@ SYMBOL_ATTRIBUTES = {
 # keywords which start a block, or a CONFIG pair
 BLOCK_KEYWORDS = COMPLEX_TYPES | {"config"}
 
+# keywords followed by keys and values, which can be unquoted words
+PAIR_KEYWORDS = ("METADATA", "VALIDATION", "VALUES", "CONNECTIONOPTIONS", "CONFIG")
+
 
 # an INCLUDE directive followed by a quoted, or unquoted filename
 INCLUDE_LINE = re.compile(
@@ -239,6 +242,20 @@ class Parser:
             and getattr(value_stack[-2], "data", None) == "composite_type"
         )
 
+    def _is_pair_key(self, value_stack: list[Any]) -> bool:
+        """
+        Check if the last token is a key in METADATA or similar blocks, so a value has to follow
+        """
+        if not value_stack or getattr(value_stack[-1], "type", None) == "_END":
+            return False
+
+        tokens = value_stack[:-1]
+
+        if tokens and str(getattr(tokens[-1], "data", "")).startswith("__"):
+            tokens.pop()  # any previous keys and values
+
+        return bool(tokens) and getattr(tokens[-1], "type", None) in PAIR_KEYWORDS
+
     def parse(self, text: str, fn: str | None = None) -> Any:
         """
         Parse the Mapfile
@@ -264,6 +281,13 @@ class Parser:
                         and t.value.upper() == "NORMAL"
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
+                elif (
+                    t.type != "_END"
+                    and t.value.isalpha()
+                    and self._is_pair_key(ip.parser_state.value_stack[-3:])
+                ):
+                    # Unquoted words such as 'CLASS' after a key are always values
+                    t.type = "UNQUOTED_STRING"
                 elif t.type.lower() in BLOCK_KEYWORDS:
                     # Unquoted words such as 'GRID' coming after the first keyword
                     # of a block are always values, not the start of a new block
-- 
2.43.0


From bf98bbad32aa6d1c0765841e9b6ea53edeb3b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 31/50] fix: don't expand INCLUDE lines within /* */ comments

---
 mappyfile/parser.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index a879e72..d61f35a 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -85,6 +85,17 @@ INCLUDE_LINE = re.compile(
     re.IGNORECASE | re.DOTALL,
 )
 
+# strings and comments (closed, or running to the end of the text)
+STRING_OR_COMMENT = re.compile(
+    r"""
+    "(?:\\"|[^"])*(?:"|\Z)
+    | '(?:\\'|[^'])*(?:'|\Z)
+    | \#[^\n]*
+    | (?P<ccomment>/\*.*?(?:\*/|\Z))
+    """,
+    re.VERBOSE | re.DOTALL,
+)
+
 
 class Parser:
     def __init__(
@@ -132,6 +143,23 @@ class Parser:
 
         return match["fn"].strip("'").strip('"')
 
+    def _get_commented_lines(self, text: str) -> set[int]:
+        """
+        Get the indexes of the lines which start within a /* */ comment
+        """
+        commented: set[int] = set()
+        idx = pos = 0
+
+        for match in STRING_OR_COMMENT.finditer(text) if "/*" in text else ():
+            if match["ccomment"] and match["ccomment"].endswith("*/"):
+                idx += text.count("\n", pos, match.start())
+                pos = match.start()
+                commented.update(
+                    range(idx + 1, idx + match["ccomment"].count("\n") + 1)
+                )
+
+        return commented
+
     def load_includes(
         self, text: str, fn: str | None = None, _nested_includes: int = 0
     ) -> str:
@@ -140,8 +168,12 @@ class Parser:
             fn = os.getcwd() + os.sep
 
         lines = text.split("\n")
+        commented_lines = self._get_commented_lines(text)
         includes = {}
         for idx, l in enumerate(lines):
+            if idx in commented_lines:
+                continue
+
             inc_file_path = self._get_include_filename(l)
 
             if inc_file_path is not None:
-- 
2.43.0


From 54337ddae08e4dcd74dd9ae40540a6e89c6a7f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 32/50] fix: keep a blank between a unary minus and another
 sign or a word in expressions

---
 mappyfile/transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 5fe3c4d..3cea3bb 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -534,7 +534,10 @@ class MapfileTransformer(Transformer):
 
     def neg(self, t):
         assert len(t) == 1
-        t[0].value = f"-{t[0].value}"
+        value = str(t[0].value)
+        # "--" and a sign followed by a word such as NULL would be read as an unquoted string
+        sep = "" if value[0].isdigit() or value[0] in "([.\"'`" else " "
+        t[0].value = f"-{sep}{value}"
         return t[0]
 
     def runtime_var(self, t):
-- 
2.43.0


From a2c70d28aa1ef50a384e7de48c30ba79cd7bc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 33/50] fix: print FILTER lists and regular expressions between
 double backslashes unquoted

---
 mappyfile/pprint.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index a05655d..6bcf6d4 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -398,8 +398,8 @@ class PrettyPrinter:
                 return value.upper()
 
         if allows_expression and (
-            self.quoter.in_slashes(value)
-            or (value.endswith("i") and self.quoter.in_slashes(value[:-1]))
+            self.is_regexp(value)
+            or (value.endswith("i") and self.is_regexp(value[:-1]))
             or value.endswith(("'i", '"i'))
         ):
             # regular expressions, and case-insensitive strings and regular expressions
@@ -407,6 +407,14 @@ class PrettyPrinter:
 
         return self.quoter.add_quotes(value)
 
+    def is_regexp(self, value: str) -> bool:
+        """
+        A regular expression is delimited by slashes or by double backslashes
+        """
+        return self.quoter.in_slashes(value) or (
+            len(value) > 4 and value.startswith("\\\\") and value.endswith("\\\\")
+        )
+
     def has_text(self, value: Any) -> bool:
         if isinstance(value, numbers.Number):
             # there is no way to write complex numbers, nan and inf
@@ -483,7 +491,7 @@ class PrettyPrinter:
                 allows_expression = self.allows_expression(attr_props)
                 if allows_expression and self.quoter.in_parenthesis(value):
                     pass
-                elif attr == "expression" and self.quoter.in_braces(value):
+                elif attr in ("expression", "filter") and self.quoter.in_braces(value):
                     # don't add quotes to list expressions such as {val1, val2}
                     pass
                 elif attr != "text" and self.quoter.in_brackets(value):
-- 
2.43.0


From b758e18ca24fd373b0461bdf87e9d8809f91c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 34/50] fix: raise a ParseError rather than RecursionError for
 deeply nested blocks

---
 mappyfile/parser.py      | 2 ++
 mappyfile/transformer.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index d61f35a..67fbbda 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -336,6 +336,8 @@ class Parser:
                 self._assign_comments(tree)
 
             return tree
+        except RecursionError:
+            raise ParseError("The Mapfile is too deeply nested") from None
         except (ParseError, UnexpectedInput) as ex:
             if fn:
                 log.error("Parsing of %s unsuccessful", fn)
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 3cea3bb..a9ad9db 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -36,6 +36,7 @@ from __future__ import annotations
 import logging
 from collections import OrderedDict
 from lark.visitors import Transformer_InPlace, Transformer, v_args
+from lark.exceptions import ParseError
 from lark.lexer import Token
 from .parser import lark_cython
 from typing import Any
@@ -762,6 +763,12 @@ class MapfileToDict:
         self.kwargs = kwargs
 
     def transform(self, tree):
+        try:
+            return self._transform(tree)
+        except RecursionError:
+            raise ParseError("The Mapfile is too deeply nested") from None
+
+    def _transform(self, tree):
         tree = Canonize().transform(tree)
 
         self.mapfile_transformer = self.transformer_class(
-- 
2.43.0


From 4c468a9e8dcdfc911f3371ee22903410ba63ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 35/50] fix: don't expand INCLUDE lines within multi-line
 strings

---
 mappyfile/parser.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 67fbbda..d90a8de 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -86,12 +86,15 @@ INCLUDE_LINE = re.compile(
 )
 
 # strings and comments (closed, or running to the end of the text)
+# quotes in lists, regular expressions, and within words do not start a string
 STRING_OR_COMMENT = re.compile(
     r"""
-    "(?:\\"|[^"])*(?:"|\Z)
-    | '(?:\\'|[^'])*(?:'|\Z)
+    (?P<string>"(?:\\"|[^"])*"|(?<!\w)'(?:\\'|[^'])*')
+    | (?:"|(?<!\w)').*\Z
     | \#[^\n]*
     | (?P<ccomment>/\*.*?(?:\*/|\Z))
+    | \{[^{}"\n]*\}
+    | (?<=[\s(~*])/[^\n"/*][^\n"/]*/
     """,
     re.VERBOSE | re.DOTALL,
 )
@@ -143,22 +146,20 @@ class Parser:
 
         return match["fn"].strip("'").strip('"')
 
-    def _get_commented_lines(self, text: str) -> set[int]:
+    def _get_enclosed_lines(self, text: str) -> set[int]:
         """
-        Get the indexes of the lines which start within a /* */ comment
+        Get the indexes of the lines which start within a string or a /* */ comment
         """
-        commented: set[int] = set()
+        enclosed: set[int] = set()
         idx = pos = 0
 
-        for match in STRING_OR_COMMENT.finditer(text) if "/*" in text else ():
-            if match["ccomment"] and match["ccomment"].endswith("*/"):
+        for match in STRING_OR_COMMENT.finditer(text):
+            if match["string"] or (match["ccomment"] or "").endswith("*/"):
                 idx += text.count("\n", pos, match.start())
                 pos = match.start()
-                commented.update(
-                    range(idx + 1, idx + match["ccomment"].count("\n") + 1)
-                )
+                enclosed.update(range(idx + 1, idx + match[0].count("\n") + 1))
 
-        return commented
+        return enclosed
 
     def load_includes(
         self, text: str, fn: str | None = None, _nested_includes: int = 0
@@ -168,10 +169,10 @@ class Parser:
             fn = os.getcwd() + os.sep
 
         lines = text.split("\n")
-        commented_lines = self._get_commented_lines(text)
+        enclosed_lines = self._get_enclosed_lines(text)
         includes = {}
         for idx, l in enumerate(lines):
-            if idx in commented_lines:
+            if idx in enclosed_lines:
                 continue
 
             inc_file_path = self._get_include_filename(l)
-- 
2.43.0


From f1d77f89f8162a4ba69951eec7ad107ab242c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 36/50] fix: findkey does not add missing keys to the
 dictionary

---
 mappyfile/dictutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 99f7d4f..d19944a 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -28,6 +28,7 @@
 # =================================================================
 
 from __future__ import annotations
+import copy
 from typing import Any
 from itertools import zip_longest
 
@@ -243,6 +244,9 @@ def findkey(d: dict, *keys: list[Any]) -> dict:
     if keys:
         keys_list = list(keys)
         search_key = keys_list.pop(0)
+        if isinstance(d, dict) and search_key not in d:
+            # missing keys are added when read from a Mapfile dictionary, leave d unchanged
+            d = copy.copy(d)
         return findkey(d[search_key], *keys_list)
 
     return d
-- 
2.43.0


From 30679c1c704ad1ec37bd2a65db8fa451b68c57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 37/50] fix: don't print a trailing space after METADATA values
 without comments

---
 mappyfile/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 6bcf6d4..646c394 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -555,7 +555,7 @@ class PrettyPrinter:
         return comment
 
     def process_attribute_comment(self, comments: dict, key: str) -> str:
-        if key not in comments:
+        if not comments.get(key):
             comment = ""
         else:
             value = comments[key]
-- 
2.43.0


From 2d68cb6a011dde742fb87c4f3731eddb82a277a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 38/50] fix: print /* */ comments before any # comments of the
 same keyword

---
 mappyfile/pprint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 646c394..0f736fd 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -562,9 +562,10 @@ class PrettyPrinter:
             spacer = " "
 
             # for multiple comments associated with an attribute
-            # simply join them together as a single string
+            # simply join them together as a single string, with any # comments
+            # last as they continue to the end of the line
             if isinstance(value, list):
-                value = " ".join(value)
+                value = " ".join(sorted(value, key=lambda v: v.startswith("#")))
 
             comment = self.format_comment(spacer, value)
 
-- 
2.43.0


From 334b135c7b338f972202e10e9cd0e97660456f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 39/50] fix: keep comments above a SYMBOLSET

---
 mappyfile/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index d90a8de..cf1ccef 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -215,7 +215,13 @@ class Parser:
             # when we encounter a new type that can have associated comments
             # assign all comments up to that point in the Mapfile to the node
             # for metadata we want to assign comments to the string_pair
-            if node.data in ("composite", "attr", "projection", "string_pair"):
+            if node.data in (
+                "composite",
+                "symbolset",
+                "attr",
+                "projection",
+                "string_pair",
+            ):
                 # for projection blocks capture any comments within the block
 
                 if node.data in ("projection"):
@@ -334,7 +340,8 @@ class Parser:
                 self.comments_dict = OrderedDict(
                     sorted({c.line: c.value.strip() for c in self._comments}.items())
                 )
-                self._assign_comments(tree)
+                # a SYMBOLSET is the root node itself
+                self._assign_comments(Tree("document", [tree]))
 
             return tree
         except RecursionError:
-- 
2.43.0


From 37e0324abc91cf6c3ef2079011ca21f715e8f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 40/50] fix: don't indent METADATA, VALIDATION, and
 CONNECTIONOPTIONS blocks which have no parent

---
 mappyfile/pprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 0f736fd..7d1e4f8 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -339,7 +339,8 @@ class PrettyPrinter:
             type_ = composite["__type__"]
             if type_ in ("metadata", "validation", "connectionoptions"):
                 # types are being parsed directly, and not as an attr of a parent
-                lines += self.process_key_dict(type_, composite, level=0)
+                # so there is no parent level to indent from
+                lines += self.process_key_dict(type_, composite, level=-1)
             else:
                 lines += self._format(composite)
 
-- 
2.43.0


From 9c8ece55acb4905288b26abe172fc509056263af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 41/50] fix: accept any keyword argument in
 CaseInsensitiveOrderedDict.update

---
 mappyfile/ordereddict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappyfile/ordereddict.py b/mappyfile/ordereddict.py
index ab27b0d..df9869c 100644
--- a/mappyfile/ordereddict.py
+++ b/mappyfile/ordereddict.py
@@ -138,10 +138,10 @@ class CaseInsensitiveOrderedDict(DefaultOrderedDict):
         # pylint: disable=protected-access
         return super().setdefault(self.__class__._k(key), *args, **kwargs)
 
-    def update(self, e=None, **f):
+    def update(self, e=None, /, **f):
         if e is not None:
             super().update(self.__class__(CaseInsensitiveOrderedDict, e))
-        super().update(self.__class__(CaseInsensitiveOrderedDict, **f))
+        super().update(self.__class__(CaseInsensitiveOrderedDict, f))
 
     def _convert_keys(self):
         for k in list(self.keys()):
-- 
2.43.0


From e7bd6546dec48a23ded149246cdd755c481fa4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 42/50] fix: allow lists of values in findunique

---
 mappyfile/dictutils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index d19944a..d74c026 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -191,12 +191,15 @@ def findunique(lst, key):
         groups = mappyfile.findunique(d["classes"], "group")
         assert groups == ["group1", "group2"]
     """
-    return sorted(
-        set((item.get(key.lower(), None) for item in lst))
-        - {
-            None,
-        }
-    )
+    values: list[Any] = []
+
+    for item in lst:
+        value = item.get(key.lower(), None)
+        # values such as colours are lists, so they can't be added to a set
+        if value is not None and value not in values:
+            values.append(value)
+
+    return sorted(values)
 
 
 def findkey(d: dict, *keys: list[Any]) -> dict:
-- 
2.43.0


From 986cb1366cf509ef1c0251325555592fd55b1e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 43/50] fix: validate LABEL BACKGROUNDSHADOWSIZE as two numbers

---
 mappyfile/schemas/label.json | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mappyfile/schemas/label.json b/mappyfile/schemas/label.json
index 4f781ec..688f827 100644
--- a/mappyfile/schemas/label.json
+++ b/mappyfile/schemas/label.json
@@ -80,11 +80,12 @@
     },
     "backgroundshadowsize": {
       "default": false,
-      "allOf": [
-        {
-          "$ref": "points.json"
-        }
-      ],
+      "type": "array",
+      "items": {
+        "type": "integer"
+      },
+      "minItems": 2,
+      "maxItems": 2,
       "metadata": {
         "maxVersion": 6.0
       }
-- 
2.43.0


From cc8781820c9b8aea0e9789e0fd11f6266133cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 44/50] fix: keep carriage returns in strings when opening a
 Mapfile

---
 mappyfile/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index cf1ccef..11cc729 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -249,7 +249,8 @@ class Parser:
 
     def open_file(self, fn: str):
         try:
-            with open(fn, "r", encoding="utf-8") as f:
+            # keep any line endings within strings
+            with open(fn, "r", encoding="utf-8", newline="") as f:
                 return f.read()
         except UnicodeDecodeError as ex:
             log.debug(ex)
-- 
2.43.0


From 37d46fa9d67714c1491123daeedfe19347dce94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 45/50] fix: validate files with names in another encoding

---
 mappyfile/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 8a94e41..9ad1af0 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -212,10 +212,10 @@ def validate(_, mapfiles, expand, version):
     validation_count = 0
     errors = 0
 
-    for fn in all_mapfiles:
-        fn = click.format_filename(fn)
+    for mapfile in all_mapfiles:
+        fn = click.format_filename(mapfile)
         try:
-            d = mappyfile.open(fn, expand_includes=expand, include_position=True)
+            d = mappyfile.open(mapfile, expand_includes=expand, include_position=True)
         except Exception as ex:
             logger.exception(ex)
             click.echo(f"{fn} failed to parse successfully")
-- 
2.43.0


From 027dd65b6bc28b1f1bacf384cf05532d2644bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 46/50] fix: keep non-ASCII characters in the options of the
 format command

---
 mappyfile/cli.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 9ad1af0..97633b0 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -61,6 +61,14 @@ def configure_logging(verbosity: int):
     logging.basicConfig(stream=sys.stderr, level=log_level)
 
 
+def decode_escapes(value: str) -> str:
+    """
+    Decode any escape sequences such as \\t and \\n, leaving
+    other (non-ASCII) characters unchanged
+    """
+    return value.encode("latin-1", "backslashreplace").decode("unicode_escape")
+
+
 logger = logging.getLogger(__name__)
 
 
@@ -147,11 +155,9 @@ def format(
         mappyfile format C:/Temp/valid.map C:/Temp/valid_formatted.map --no-expand --comments
     """
 
-    quote = codecs.decode(quote, "unicode_escape")  # ensure \t is handled as a tab
-    spacer = codecs.decode(spacer, "unicode_escape")  # ensure \t is handled as a tab
-    newlinechar = codecs.decode(
-        newlinechar, "unicode_escape"
-    )  # ensure \n is handled as a newline
+    quote = decode_escapes(quote)  # ensure \t is handled as a tab
+    spacer = decode_escapes(spacer)  # ensure \t is handled as a tab
+    newlinechar = decode_escapes(newlinechar)  # ensure \n is handled as a newline
 
     d = mappyfile.open(
         input_mapfile,
-- 
2.43.0


From 00f4f58ced75860ea9a43dd51ef71aac40fca7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 47/50] fix: reading many POINTS blocks took quadratic time

---
 mappyfile/transformer.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index a9ad9db..9707274 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -180,7 +180,8 @@ class MapfileTransformer(Transformer):
             # allow for multipart features in a nested list
             existing_points = composite_dict[key_name]
 
-            if calculate_depth(existing_points) == 2:
+            if isinstance(existing_points[0], tuple):
+                # a single part so far, a list of number pairs
                 composite_dict[key_name] = [existing_points]
 
             if key_name not in composite_dict:
@@ -789,12 +790,3 @@ class Canonize(Transformer_InPlace):
     def symbolset(self, tree):
         tree.data = "composite"
         return tree
-
-
-def calculate_depth(iterable):
-    """
-    A helper function to get the max length + 1 in a list of lists
-    """
-    return (
-        isinstance(iterable, (tuple, list)) and max(map(calculate_depth, iterable)) + 1
-    )
-- 
2.43.0


From 467a8567c0e79bd6727790b8567fc2c1468cfab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 48/50] fix: syntax errors that the transformer finds had no
 line and column

---
 mappyfile/transformer.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 9707274..07dccca 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -36,7 +36,7 @@ from __future__ import annotations
 import logging
 from collections import OrderedDict
 from lark.visitors import Transformer_InPlace, Transformer, v_args
-from lark.exceptions import ParseError
+from lark.exceptions import ParseError, UnexpectedToken, VisitError
 from lark.lexer import Token
 from .parser import lark_cython
 from typing import Any
@@ -296,9 +296,9 @@ class MapfileTransformer(Transformer):
 
         if isinstance(key_token, (list, tuple)):
             key_token = key_token[0]
-            assert self.key_name(key_token) in ("style", "symbol"), self.key_name(
-                key_token
-            )
+            if self.key_name(key_token) not in ("style", "symbol"):
+                # the keywords of all other blocks can't have a value
+                raise UnexpectedToken(key_token, set())
 
         key_name = self.key_name(key_token)
         value_tokens = tokens[1:]
@@ -451,6 +451,10 @@ class MapfileTransformer(Transformer):
 
     def process_pair_lists(self, key_name, tokens):
         _, body = self.check_composite_tokens(key_name, tokens)
+
+        if not body:
+            raise UnexpectedToken(tokens[-1], set())
+
         pairs = [(v[0].value, v[1].value) for v in body]
 
         key_token = tokens[0]
@@ -768,6 +772,14 @@ class MapfileToDict:
             return self._transform(tree)
         except RecursionError:
             raise ParseError("The Mapfile is too deeply nested") from None
+        except VisitError as ex:
+            error: Exception = ex
+            while isinstance(error, VisitError):
+                error = error.orig_exc
+            if isinstance(error, UnexpectedToken):
+                # a syntax error, with the position of the token
+                raise error from None
+            raise
 
     def _transform(self, tree):
         tree = Canonize().transform(tree)
-- 
2.43.0


From 9350a46a1d254882a8d7a53e2f1ac202428c353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 49/50] fix: numbers too large for a float were read as inf,
 which can't be written

---
 mappyfile/transformer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 07dccca..f7b6748 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -34,6 +34,7 @@ Python dict structure
 
 from __future__ import annotations
 import logging
+import math
 from collections import OrderedDict
 from lark.visitors import Transformer_InPlace, Transformer, v_args
 from lark.exceptions import ParseError, UnexpectedToken, VisitError
@@ -600,11 +601,18 @@ class MapfileTransformer(Transformer):
 
     def int(self, t):
         v = t[0]
-        return update_token_value(v, int(v.value))
+        try:
+            return update_token_value(v, int(v.value))
+        except ValueError:  # more digits than Python converts
+            raise UnexpectedToken(v, set()) from None
 
     def float(self, t):
         v = t[0]
-        return update_token_value(v, float(v.value))
+        value = float(v.value)
+        if math.isinf(value):
+            # too large for a number, and can't be written back
+            raise UnexpectedToken(v, set())
+        return update_token_value(v, value)
 
     def bare_string(self, t):
         return t[0]
-- 
2.43.0


From b76ffac1df4a23b7912c51580530c9e6576718a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:32 +0000
Subject: [PATCH 50/50] fix: a negated value in a list was printed with NOT,
 which can't be read in a list

---
 mappyfile/transformer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index f7b6748..1135f64 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -669,10 +669,20 @@ class MapfileTransformer(Transformer):
     def list(self, t):
         # http://www.mapserver.org/mapfile/expressions.html#list-expressions
         v = t[0]
-        list_values = ",".join([str(s.value) for s in t])
+        list_values = ",".join([self.list_value(s) for s in t])
         v.value = "{%s}" % list_values
         return v
 
+    def list_value(self, token) -> str:
+        value = str(token.value)
+        if token.type == "UNQUOTED_STRING_SPACE" and "{" not in value:
+            return value
+        # in a list NOT is read as the start of an unquoted string
+        operand = value
+        while operand.startswith("NOT "):
+            operand = operand[len("NOT ") :]
+        return "! " * ((len(value) - len(operand)) // len("NOT ")) + operand
+
     def literal(self, t):
         return t[0]
 
-- 
2.43.0

