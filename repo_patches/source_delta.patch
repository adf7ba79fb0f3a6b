From 10b148da1cedd3c5279424696dda1504038a75b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 01/36] fix: evaluate every node of the policy again for each
 evaluation, falsy constants are not errors

---
 hgpl/interpreting.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 4750adf..b41b1f7 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -1,5 +1,6 @@
 from hgpl.parsing import Parser
-from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ASTResult, ASTNullVal
+from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ValNode, BoolValNode, \
+    ASTResult, ASTNullVal
 from hgpl.symbols import SymbolTable, Symbol, SymbolType
 from hgpl.errors import InterpreterError, InterpreterWarning
 
@@ -256,9 +257,12 @@ class Interpreter(object):
                             node)
 
     def _evaluate_node(self, node):
+        # Constants carry their value from the start, every other node depends on the attributes of this evaluation.
+        if isinstance(node, (ValNode, BoolValNode)):
+            return
+
         for n in node.children():
-            if not n.result:
-                self._evaluate_node(n)
+            self._evaluate_node(n)
 
         if isinstance(node, AttNode):
             self._evaluate_att_node(node)
-- 
2.43.0


From ab183d97cf83d4f447398ae6a6e31dbde464ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 02/36] fix: allow 0 and the empty string as members of set
 constants

---
 hgpl/interpreting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index b41b1f7..fc48265 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -250,7 +250,7 @@ class Interpreter(object):
     def _evaluate_set_node(self, node):
         node.result = []
         for n in node.children():
-            if n.result and isinstance(n.result, (int, float, str, ASTNullVal)):
+            if n.result is not None and isinstance(n.result, (int, float, str, ASTNullVal)):
                     node.result.append(n.result)
             else:
                 self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_set_node",
-- 
2.43.0


From 36fc4aed208e11b5406cc6046916dfc2e5cb3be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 03/36] fix: keep interpreter warnings per evaluation and allow
 no warning level

---
 hgpl/interpreting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index fc48265..d8cd721 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -286,10 +286,11 @@ class Interpreter(object):
         else:
             self._symbols = SymbolTable()
 
+        self._warnings = []
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-            if warn.type >= min_warn_level:
+            if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
 
         return self._ast.result
-- 
2.43.0


From e58016a28c89305dab8452dd7ac741fb9764e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 04/36] fix: make the NULL value hashable so it can be a set
 member

---
 hgpl/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index db09155..857582d 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -267,6 +267,9 @@ class ASTNullVal(object):
     def __ne__(self, other):
         return not isinstance(other, ASTNullVal)
 
+    def __hash__(self):
+        return hash(ASTNullVal)
+
 
 class NullValNode(ValNode):
     def __init__(self, token):
-- 
2.43.0


From dd89b627e44d1114704c0e6016b21bd29b9c18c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 05/36] fix: compare set attributes and set constants as sets
 with = and !=

---
 hgpl/interpreting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index d8cd721..fc7265d 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -104,17 +104,19 @@ class Interpreter(object):
         tmp = lresult
         if isinstance(lresult, Symbol):
             lresult = self._symbol_to_val(lresult, rresult, 0)
+        elif isinstance(lresult, list):
+            lresult = set(lresult)
 
         if isinstance(rresult, Symbol):
             rresult = self._symbol_to_val(rresult, tmp, 0)
+        elif isinstance(rresult, list):
+            rresult = set(rresult)
 
         if (isinstance(lresult, (int, float)) and isinstance(rresult, (int, float))) or \
            (isinstance(lresult, str) and isinstance(rresult, str)) or \
            (isinstance(lresult, set) and isinstance(rresult, set)) or \
            (isinstance(lresult, ASTNullVal) and isinstance(rresult, ASTNullVal)):
             return ASTResult.from_bool(lresult == rresult)
-        elif isinstance(lresult, list) and isinstance(rresult, list):
-            return ASTResult.from_bool(set(lresult) == set(rresult))
         else:
             self._warn("Interpreter Warning, invalid type used in '=' or '!=' operation.", "eq_op", None, lresult,
                        rresult)
-- 
2.43.0


From cb4f8ba9cfa172ab2d944de01060fb2cbb005d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 06/36] fix: comparing attributes of different types with = or
 != is undefined

---
 hgpl/interpreting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index fc7265d..9c07377 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -101,6 +101,12 @@ class Interpreter(object):
             return symbol.value
 
     def _eq_op(self, lresult, rresult):
+        if isinstance(lresult, Symbol) and isinstance(rresult, Symbol) and \
+           not isinstance(lresult.value, (set, list)) and not isinstance(rresult.value, (set, list)):
+            # Two single valued attributes are compared directly, as sets they would hide a type mismatch.
+            lresult = lresult.value
+            rresult = rresult.value
+
         tmp = lresult
         if isinstance(lresult, Symbol):
             lresult = self._symbol_to_val(lresult, rresult, 0)
-- 
2.43.0


From 123826af197ab36f61f4d46bcd1366f19aa176e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 07/36] fix: a non boolean attribute used as a boolean is
 undefined

---
 hgpl/interpreting.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 9c07377..f65c200 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -65,9 +65,16 @@ class Interpreter(object):
                        "evaluate_att_node", node)
             node.result = ASTResult.UNDEF
 
+    def _bool_result(self, node):
+        if isinstance(node, AttNode) and isinstance(node.result, Symbol):
+            self._warn("Interpreter Warning, the attribute {} is not a boolean.".format(node.result.name),
+                       "bool_result", node)
+            return ASTResult.UNDEF
+        return node.result
+
     def _evaluate_not_node(self, node):
-        if node.left() and node.left().result is not None and isinstance(node.left().result, ASTResult):
-            node.result = ASTResult.tri_not(node.left().result)
+        if node.left() and isinstance(self._bool_result(node.left()), ASTResult):
+            node.result = ASTResult.tri_not(self._bool_result(node.left()))
         else:
             self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_not_node",
                         node)
@@ -76,13 +83,15 @@ class Interpreter(object):
         left = node.left()
         right = node.right()
 
-        if left and right and left.result is not None and right.result is not None and \
-           isinstance(left.result, ASTResult) and isinstance(right.result, ASTResult) and \
+        lresult = self._bool_result(left) if left else None
+        rresult = self._bool_result(right) if right else None
+
+        if isinstance(lresult, ASTResult) and isinstance(rresult, ASTResult) and \
            node.tvalue().upper() in ("AND", "OR"):
                 if node.tvalue().upper() == "AND":
-                    node.result = left.result & right.result
+                    node.result = lresult & rresult
                 else:
-                    node.result = left.result | right.result
+                    node.result = lresult | rresult
         else:
             self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_bool_op_node",
                         node)
@@ -296,9 +305,10 @@ class Interpreter(object):
 
         self._warnings = []
         self._evaluate_node(self._ast)
+        result = self._bool_result(self._ast)
 
         for warn in self._warnings:
             if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
 
-        return self._ast.result
+        return result
-- 
2.43.0


From f63f9020d2ea940ef95de9df59b71b69e04fe625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 08/36] fix: report a lexer error when a policy ends after an
 attribute prefix

---
 hgpl/lexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 957997a..26ead7c 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -229,7 +229,8 @@ class Lexer(object):
             if self._peek() == ".":
                 self._advance()
                 self._advance()
-                if self._current_char.isalpha() or self._current_char.isdigit() or self._current_char == "_":
+                if self._current_char and (self._current_char.isalpha() or self._current_char.isdigit() or
+                                           self._current_char == "_"):
                     ident = self._id()
                     if prefix.lower() == "user":
                         token_type = TokenType.USR_ATT
-- 
2.43.0


From 8160cb27aff349c4869d17f95a5c6b47ca6536de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 09/36] fix: only decimal digits form numbers

---
 hgpl/lexing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 26ead7c..c4b4caf 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -106,13 +106,13 @@ class Lexer(object):
         ttype = TokenType.INT
         numstring = self._current_char
         pos_at_start = self._text_pos
-        while self._peek() and (self._peek().isdigit() or self._peek() == "."):
-            if self._peek().isdigit():
+        while self._peek() and (self._peek().isdecimal() or self._peek() == "."):
+            if self._peek().isdecimal():
                 self._advance()
                 numstring += self._current_char
             elif self._peek() == "." and ttype == TokenType.INT:
                 self._advance()
-                if self._peek() and self._peek().isdigit():
+                if self._peek() and self._peek().isdecimal():
                     ttype = TokenType.FLOAT
                     numstring += self._current_char
                 else:
@@ -221,7 +221,8 @@ class Lexer(object):
                                  self._text_pos + 1, Token(TokenType.OP, self._text_pos, "!="))
         elif self._current_char == "\"":
             next_token = self._string()
-        elif self._current_char.isdigit() or (self._current_char == "-" and self._peek() and self._peek().isdigit()):
+        elif self._current_char.isdecimal() or (self._current_char == "-" and self._peek() and
+                                                self._peek().isdecimal()):
             next_token = self._number()
         elif self._current_char.isalpha():
             pos_at_start = self._text_pos
-- 
2.43.0


From 5f679b8f576fcb1b146fafd9ce315db7dfc199ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 10/36] fix: parser lookahead past the last token

---
 hgpl/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index 9ee53e1..a34ce3e 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -24,7 +24,7 @@ class Parser(object):
         return self._policy
 
     def _peek(self, i=1):
-        if self._pos + i > len(self._token_list):
+        if self._pos + i >= len(self._token_list):
             return None
         return self._token_list[self._pos + i]
 
-- 
2.43.0


From 85eb3ac627a38d652bc9a25994a270b632b4bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 11/36] fix: infer the type of an attribute from the attribute
 it is compared with

---
 hgpl/semantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index e08d906..88dd380 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -53,10 +53,10 @@ class TypeChecker(object):
             right_symbol = self._symbols.lookup(right_name)
 
             if left_symbol and right_symbol:
-                if left_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
+                if left_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(left_symbol.name, right_symbol.type)
                     left_symbol.type = right_symbol.type
-                elif right_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
+                elif right_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(right_symbol.name, left_symbol.type)
                     right_symbol.type = left_symbol.type
                 elif left_symbol.type != right_symbol.type \
-- 
2.43.0


From 508ecb7620cfd89ad255c5a67145af96c3060379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 12/36] fix: attribute names are case-insensitive when a symbol
 table is built

---
 hgpl/symbols.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index a5ec588..78483fc 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -248,7 +248,7 @@ class SymbolTableBuilder(object):
 
     @staticmethod
     def _to_att_type_name(full_att_name):
-        return full_att_name.split('.',1)[0]
+        return full_att_name.split('.',1)[0].lower()
 
     @staticmethod
     def _to_att_name(full_att_name):
@@ -282,10 +282,11 @@ class SymbolTableBuilder(object):
         st = SymbolTable()
         x = {TokenType.USR_ATT:self.user_atts, TokenType.OBJ_ATT:self.object_atts, TokenType.ENV_ATT:self.env_atts,
              TokenType.ADM_ATT:self.admin_atts, TokenType.CON_ATT:self.connect_atts}
+        types = {name.lower(): stype for name, stype in self.types.items()}
         for att_type in x:
             att_dict = x.get(att_type)
             for att_name in att_dict:
                 s = Symbol(att_name, att_type, None, att_dict.get(att_name))
-                s.type = self.types.get(s.name, SymbolType.UNKNOWN)
+                s.type = types.get(s.name, SymbolType.UNKNOWN)
                 st.define(s)
         return st
-- 
2.43.0


From ced6e294046121294cde995f0b2f89b7f6b69fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 13/36] fix: encode floats of a policy AST in double precision

---
 hgpl/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 857582d..adb7722 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -339,8 +339,8 @@ class ASTEncoder(object):
             tval_size = 4
             tval = node.tvalue()
         elif node.ttype() == TokenType.FLOAT:
-            tval_format = 'f'
-            tval_size = 4
+            tval_format = 'd'
+            tval_size = 8
             tval = node.tvalue()
         #elif node.ttype() == TokenType.BOOL:
         #    tval_format = 'B'
@@ -425,7 +425,7 @@ class ASTEncoder(object):
                 if token_type == TokenType.INT.value:
                     tval_format = 'i'
                 elif token_type == TokenType.FLOAT.value:
-                    tval_format = 'f'
+                    tval_format = 'd' if token_val_size == 8 else 'f'
                 #elif token_type == TokenType.BOOL.value:
                 #    tval_format = 'B'
                 else:
-- 
2.43.0


From 110e6346e1a3c0c1e5177550829b8008687fd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 14/36] fix: encode empty and non ASCII token values of a
 policy AST by their byte size

---
 hgpl/ast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index adb7722..15772d6 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -352,9 +352,9 @@ class ASTEncoder(object):
                 tval_size = 0
                 tval = None
             elif isinstance(node.tvalue(), str):
-                tval_size = len(node.tvalue())
-                tval_format = str(tval_size) + 's'
                 tval = bytes(node.tvalue(), 'utf-8')
+                tval_size = len(tval)
+                tval_format = str(tval_size) + 's'
             else:
                 print(node.tvalue())
                 print(node.tvalue().__class__.__name__)
@@ -438,6 +438,8 @@ class ASTEncoder(object):
                     token_val = token_val.decode('utf-8')
 
                 byte_count += token_val_size
+            elif token_type == TokenType.STRING.value:
+                token_val = ''
             else:
                 token_val = None
 
-- 
2.43.0


From 28a17fc14914c157ddeafb51c00aea037d2a535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 15/36] fix: certificate string sizes are sizes in bytes

---
 hgaa/attcert.py | 62 ++++++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6b13e75..6cf117c 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -99,27 +99,19 @@ class ACIssuer(ACPart):
         return output
 
     def encode(self):
-        pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
-
-        if self.name is not None:
-            name_size = len(self.name)
-        else:
-            name_size = 0
-
-        if self.url is not None:
-            url_size = len(self.url)
-        else:
-            url_size = 0
-
-        header = struct.pack('<HHHHH', pub_key_size, key_algo_size, uid_size, name_size, url_size)
-
         key_algo = self.key_algo.encode('utf-8')
         uid = self.uid.encode('utf-8')
         name = b'' if self.name is None else self.name.encode('utf-8')
         url = b'' if self.url is None else self.url.encode('utf-8')
 
+        pub_key_size = len(self.pub_key)
+        key_algo_size = len(key_algo)
+        uid_size = len(uid)
+        name_size = len(name)
+        url_size = len(url)
+
+        header = struct.pack('<HHHHH', pub_key_size, key_algo_size, uid_size, name_size, url_size)
+
         strings = struct.pack('<' + str(key_algo_size) + 's' + str(uid_size) + 's' + str(name_size) + 's' +
                               str(url_size) + 's', key_algo, uid, name, url)
 
@@ -165,21 +157,17 @@ class ACHolder(ACPart):
         return output
 
     def encode(self):
-        pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
-
-        if self.name is not None:
-            name_size = len(self.name)
-        else:
-            name_size = 0
-
-        header = struct.pack('<HHHH', pub_key_size, key_algo_size, uid_size, name_size)
-
         key_algo = self.key_algo.encode('utf-8')
         uid = self.uid.encode('utf-8')
         name = b'' if self.name is None else self.name.encode('utf-8')
 
+        pub_key_size = len(self.pub_key)
+        key_algo_size = len(key_algo)
+        uid_size = len(uid)
+        name_size = len(name)
+
+        header = struct.pack('<HHHH', pub_key_size, key_algo_size, uid_size, name_size)
+
         strings = struct.pack('<' + str(key_algo_size) + 's' + str(uid_size) + 's' + str(name_size) + 's', key_algo,
                               uid, name)
 
@@ -232,13 +220,13 @@ class ACAttribute(ACPart):
         return output
 
     def encode(self):
-        att_id_size = len(self.att_id)
-        att_value_size = len(self.att_value) if self.att_value is not None else 0
-        att_name_size = len(self.att_name) if self.att_name is not None else 0
-        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         att_id = self.att_id.encode('utf-8')
         att_value = self.att_value.encode('utf-8') if self.att_value is not None else b''
         att_name = self.att_name.encode('utf-8') if self.att_name is not None else b''
+        att_id_size = len(att_id)
+        att_value_size = len(att_value)
+        att_name_size = len(att_name)
+        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         headandbody = struct.pack('<HHHHB%ss%ss%ss' % (att_id_size, att_value_size, att_name_size), att_id_size,
                                   att_value_size, att_name_size, extra_byte_size, self.att_type.value, att_id,
                                   att_value, att_name)
@@ -307,9 +295,9 @@ class ACRevocationRules(ACPart):
         return output
 
     def encode(self):
-        url_size = len(self.url) if self.url is not None else 0
-        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         url = self.url.encode('utf-8') if self.url is not None else b''
+        url_size = len(url)
+        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
 
         headandbody = struct.pack('<HHII%ss' % url_size, url_size, extra_byte_size, self.valid_after,
                                   self.valid_before, url)
@@ -386,9 +374,9 @@ class ACExtensions(ACPart):
         return output
 
     def encode(self):
-        eid_size = len(self.eid)
-        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         eid = self.eid.encode('utf-8')
+        eid_size = len(eid)
+        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
 
         headerandbody = struct.pack('<HH%ss' % eid_size, eid_size, extra_byte_size, eid)
 
@@ -430,9 +418,9 @@ class ACSignature(ACPart):
         return output
 
     def encode(self):
-        algo_size = len(self.sig_algo)
-        value_size = len(self.sig_value)
         algo = self.sig_algo.encode('utf-8')
+        algo_size = len(algo)
+        value_size = len(self.sig_value)
 
         headandalgo = struct.pack('<HH%ss' % algo_size, algo_size, value_size, algo)
         encoded = b''.join((headandalgo, self.sig_value))
-- 
2.43.0


From e5a20ab5de05befc596d307acad18d97420e6bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 16/36] fix: comparing certificates without attributes or
 extensions

---
 hgaa/attcert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6cf117c..75a9258 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -678,8 +678,10 @@ class AttributeCertificate(object):
                     return False
 
             # TODO: Refactor this (poorly coded)
-            if self.att_set is None and other.att_set is None:
+            if not self.att_set and not other.att_set:
                 pass
+            elif not self.att_set or not other.att_set:
+                return False
             elif len(self.att_set) == len(other.att_set):
                 for self_att in self.att_set:
                     ok = False
@@ -696,8 +698,10 @@ class AttributeCertificate(object):
                 return False
 
             # TODO: Refactor this (poorly coded)
-            if self.extensions is None and other.extensions is None:
+            if not self.extensions and not other.extensions:
                 pass
+            elif not self.extensions or not other.extensions:
+                return False
             elif len(self.extensions) == len(other.extensions):
                 for self_ext in self.extensions:
                     ok = False
-- 
2.43.0


From 3b965b7b50cfe2f297417a673dc2aed97097a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 17/36] fix: read the revocation URL from the configured key

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index d352664..a929444 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -92,7 +92,7 @@ class AttributeAuthority(object):
         self.aauth_id = get_conf('AAUTH_ID', True, 'AAUTH')
         # TODO: a_uri should be renamed to uid
         self.a_uri = get_conf('A_URI', True, 'AAUTH')
-        self.rev_url = get_conf('REV_URI', True, 'AAUTH')
+        self.rev_url = get_conf('REV_URL', True, 'AAUTH')
 
         # TODO: Make sure these URLs are being generated correctly in all environments
         host = get_conf('SERVICE_HOST', True, 'LADON')
-- 
2.43.0


From aac4d8240d1af22e3bd37171d995796bc2be0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 18/36] fix: weekday name connection attribute has its own id
 and GMT time

---
 hgaa/services/aauth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index a929444..7de61b5 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -260,14 +260,14 @@ class AttributeAuthority(object):
                                    'id': '/attribute/connection/con_time',
                                    'type': AttributeType.INT,
                                    'value': int(t)}
-        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekday',
-                                           'id': '/attribute/connection/con_time_weekday',
+        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekdayname',
+                                           'id': '/attribute/connection/con_time_weekdayname',
                                            'type': AttributeType.STRING,
-                                           'value': time.strftime('%A')}
+                                           'value': time.strftime('%A', st)}
         con_att_set['con_time_monthname'] = {'name': 'con_time_monthname',
                                              'id': '/attribute/connection/con_time_monthname',
                                              'type': AttributeType.STRING,
-                                             'value': time.strftime('%B')}
+                                             'value': time.strftime('%B', st)}
         con_att_set['con_time_month'] = {'name': 'con_time_month',
                                              'id': '/attribute/connection/con_time_month',
                                              'type': AttributeType.INT,
-- 
2.43.0


From 21b1f3dca104f0b1cdd88faeb736d013f536d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 19/36] fix: do not log the hash of a submitted password

---
 hgaa/services/aauth.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 7de61b5..14eb139 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -7,7 +7,6 @@ from enum import Enum
 from Crypto.PublicKey import RSA
 import bcrypt
 import base64
-from logging import DEBUG
 import time
 import os
 
@@ -439,11 +438,6 @@ class AttributeAuthority(object):
                                                                                                exports['REMOTE_ADDR']))
                 raise ClientFault('Invalid credentials.')
 
-            if AttributeAuthority.LOG.isEnabledFor(DEBUG):
-                AttributeAuthority.LOG.debug('Hash for request is: %s' %
-                                             bcrypt.hashpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(),
-                                                           user.password.encode()))
-
             if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
                 AttributeAuthority.LOG.info('Successful login by %s from %s.' % (credentials.username,
                                                                                  exports['REMOTE_ADDR']))
-- 
2.43.0


From abe3e4d6ad7d087a8780efeafff82f614d379a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 20/36] fix: do not log the database password

---
 hgaa/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index 4e10770..3887fc1 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -78,7 +78,7 @@ def get_engine(hgaa_name, parent_log=SERVICE_LOG):
             log.error('Database type ' + dbtype + ' is not supported.')
             return None
 
-        log.debug('Connection string: %s', connect)
+        log.debug('Connecting to %s database %s', dbtype, dbname)
         engine = create_engine(connect, echo=False, logging_name=log.name, pool_logging_name=log.name)
         ACTIVE_ENGINES[hgaa_name] = engine
     return engine
-- 
2.43.0


From 42c4342769587c9fb66c564464cdffad03933781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 21/36] fix: certificate holder is the authenticated user name,
 not its spelling in the request

---
 hgaa/services/aauth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 14eb139..fb5d977 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -361,10 +361,11 @@ class AttributeAuthority(object):
         info = ACInformation(AttributeAuthority.AC_VERSION)
 
         algo = '%s[%d]' % (user_public_key.key_algorithm.cipher, user_public_key.key_algorithm.key_size)
+        username = credentials.username.lower()
         holder = ACHolder(key_algo=algo,
-                          uid='%s/user/%s' % (self.a_uri, credentials.username),
+                          uid='%s/user/%s' % (self.a_uri, username),
                           pub_key=user_public_key.public_key,
-                          name=credentials.username)
+                          name=username)
 
         rev_rules = ACRevocationRules(valid_before=info.issued + self.ac_expire_length,
                                       valid_after=info.issued,
-- 
2.43.0


From 45993496b001a38ce617cd2149614c642c80bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 22/36] fix: an attribute without value has no value in the
 certificate

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index fb5d977..4349e84 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -380,7 +380,7 @@ class AttributeAuthority(object):
                         att_id=att.id,
                         att_type=att.type,
                         att_name=att.name,
-                        att_value=str(att.value)
+                        att_value=str(att.value) if att.value is not None else None
                     )
                 )
 
-- 
2.43.0


From 2f6b38ccc30a23c6efb854b83888d9af2eada262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 23/36] fix: policy authority uses its own database

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 3cde23a..7955c98 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -125,7 +125,7 @@ class PolicyAuthority(object):
                                      'url': self.url})
 
         PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
-        self._db_session = get_session('AAUTH') # TODO: Need new session for each request?
+        self._db_session = get_session('PAUTH') # TODO: Need new session for each request?
 
     @ladonize(rtype=int)
     def simp(self):
-- 
2.43.0


From 3a2e0a473b6dc7378b9f1c6ae2ac951124045e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 24/36] fix: hash the received certificate, not the consumed
 buffer

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 7955c98..1a96835 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -258,7 +258,7 @@ class PolicyAuthority(object):
 
                 processed_att_certs[b64_serial] = cert
 
-                cert_hash=base64.b64encode(SHA256.new(raw_cert.data_raw).digest()).decode('utf-8')
+                cert_hash=base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')
 
 
                 has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
-- 
2.43.0


From 0fe38a814b907dc9373e31a67fbca295363f6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 25/36] fix: certificates have to be signed with the key of the
 trusted authority

---
 hgaa/services/pauth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 1a96835..5c82236 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -5,6 +5,7 @@ from ladon.types.attachment import attachment
 from ladon.exceptions.service import ClientFault, ServerFault
 from Crypto.Random.random import getrandbits
 from Crypto.Hash import SHA256
+from Crypto.PublicKey import RSA
 import time
 import base64
 
@@ -192,7 +193,8 @@ class PolicyAuthority(object):
 
             aauth_uid = cert.issuer.uid
             aauth = aauth_dict.get(aauth_uid, None)
-            if aauth is None or aauth.trust_level <= 0:
+            if aauth is None or aauth.trust_level <= 0 or \
+               RSA.import_key(aauth.pub_key) != RSA.import_key(cert.issuer.pub_key):
                 PolicyAuthority.LOG.error(
                     'ClientFault: aauth in ac is not trusted in request from %s'
                     % exports['REMOTE_ADDR'])
-- 
2.43.0


From 6392b0fd682af7f482b57147f05f93b27dd19a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 26/36] fix: read the policy of an evaluate request

---
 hgaa/services/pauth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 5c82236..a83ac07 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -307,14 +307,14 @@ class PolicyAuthority(object):
     def evaluate(self, session_id, policy_objatt_pair, **exports):
         s = self._db_session()
 
-        if policy_objatt_pair.policy_uid is None and policy_objatt_pair.policy_string is None:
+        if policy_objatt_pair.policy.policy_uid is None and policy_objatt_pair.policy.policy_string is None:
             PolicyAuthority.LOG.error(
                 'ClientFault: Need to give policy uid or policy string in evaluate request from %s'
                 % exports['REMOTE_ADDR'])
             raise ClientFault('Need to give policy uid or policy string.')
-        elif policy_objatt_pair.policy_uid is not None:
+        elif policy_objatt_pair.policy.policy_uid is not None:
             # TODO: Support for relative policy uids and names
-            p = s.query(Session).filter(P.uid == policy_objatt_pair.policy_uid).first()
+            p = s.query(P).filter(P.uid == policy_objatt_pair.policy.policy_uid).first()
             if p is None:
                 PolicyAuthority.LOG.error(
                     'ClientFault: Unknown policy uid in evaluate request from %s'
@@ -322,7 +322,7 @@ class PolicyAuthority(object):
                 raise ClientFault('Unknown policy uid.')
             policy = p.policy
         else:
-            policy = policy_objatt_pair.policy_string
+            policy = policy_objatt_pair.policy.policy_string
 
         try:
             # TODO: Cache ast
-- 
2.43.0


From 3681a1768e7a81ab770433d2f37f846b09de2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 27/36] fix: look up and expire evaluate sessions as they are
 stored

---
 hgaa/services/pauth.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index a83ac07..ad5a504 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -357,19 +357,20 @@ class PolicyAuthority(object):
 
         cert_dict = {}
 
-        session = s.query(Session).filter(Session.id == session_id).first()
+        b64_session = self._int_to_b64(session_id, PolicyAuthority.SESSION_ID_SIZE)
+        session = s.query(Session).filter(Session.id == b64_session).first()
         if session is None:
             PolicyAuthority.LOG.error(
                 'ClientFault: Unknown session_id in evaluate request from %s'
                 % exports['REMOTE_ADDR'])
             raise ClientFault('Unknown session_id.')
-        elif int(time.time()) > session.valid_till:
+        elif int(time.time()) > session.session_valid_till:
             PolicyAuthority.LOG.error(
                 'ClientFault: Expired session in evaluate request from %s'
                 % exports['REMOTE_ADDR'])
             raise ClientFault('Session has expired.')
 
-        certs = s.query(AC).join(AC.sessions).filter_by(ACA.session_id == session_id).all()
+        certs = s.query(AC).join(AC.sessions).filter(ACA.session_id == b64_session).all()
         for cert in certs:
             if PolicyAuthority.RECHECK_CERT_EACH_EVAL:
                 act = AttributeCertificateType()
-- 
2.43.0


From 07588f3a96fde30b9fde960ac71c489f9ff1494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 28/36] fix: recheck stored certificates as they are stored

---
 hgaa/services/pauth.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index ad5a504..f107e15 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -374,21 +374,23 @@ class PolicyAuthority(object):
         for cert in certs:
             if PolicyAuthority.RECHECK_CERT_EACH_EVAL:
                 act = AttributeCertificateType()
-                act.format = cert.format
+                act.format = ExportFormat(cert.format)
                 act.version = cert.version
-                act.data = cert.certificate
-                cert_hash = SHA256.new(cert.certificate)
+                act.data_raw = bytearray(cert.certificate)
+                cert_hash = base64.b64encode(SHA256.new(cert.certificate).digest()).decode('utf-8')
 
                 ac = self._check_cert(act, aauth_dict, exports, 'evaluate')
 
-                if ac.info.serial != cert.serial or ac.info.version != cert.version or cert_hash != cert.hash or \
-                   ac.rev_rules.valid_till != cert.valid_till:
+                if self._int_to_b64(ac.info.serial, ACInformation.SERIAL_SIZE) != cert.serial or \
+                   ac.info.version != cert.version or cert_hash != cert.hash or \
+                   ac.rev_rules.valid_before != cert.valid_till:
                     PolicyAuthority.LOG.error(
                         'ServerFault: Unknown session_id in evaluate request from %s'
                         % exports['REMOTE_ADDR'])
                     raise ServerFault('Mismatch certificate information in database and raw data.')
             else:
-                ac = AttributeCertificate.import_ac(cert.certificate, format=cert.format, verify=False)
+                ac = AttributeCertificate.import_ac(bytearray(cert.certificate), format=ExportFormat(cert.format),
+                                                    verify=False)
 
             cert_dict[ac.info.serial] = ac
 
-- 
2.43.0


From ccbcc1437729f82d806559400fec0fcb4d7b0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 29/36] fix: start_session client raises on error replies

---
 hgaa/clients/pauth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hgaa/clients/pauth.py b/hgaa/clients/pauth.py
index c478426..f81d3df 100644
--- a/hgaa/clients/pauth.py
+++ b/hgaa/clients/pauth.py
@@ -63,7 +63,11 @@ class PolicyAuthorityClient(object):
         response = self.cli.start_session(service_uid=self.service_uid,
                                           att_cert_set={'attribute_certificates': att_cert_set})
 
-        #if response.status != 200:
-        #    raise Exception("Bad status in response.")
+        if response.status != 200:
+            raise Exception("Bad status in response.")
+
+        if 'fault' in response.response_dict:
+            raise Exception("Fault encountered in request reply.\nERROR: %s"
+                            % response.response_dict['fault']['string'])
 
         return response #.response_dict['result']
\ No newline at end of file
-- 
2.43.0


From c7613875c528c1383671f469251a7ac2e64464f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 30/36] fix: list the services the handler serves

---
 hgaa/services/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/__init__.py b/hgaa/services/__init__.py
index 73c0fe3..6b09e1c 100644
--- a/hgaa/services/__init__.py
+++ b/hgaa/services/__init__.py
@@ -1 +1,4 @@
-ServiceList={'aauth': 'AttributeAuthority', 'pauth': 'PolicyAuthority'}
\ No newline at end of file
+ServiceList = {
+    'aauth': 'AttributeAuthority',
+    'pauth': 'PolicyAuthority'
+}
-- 
2.43.0


From 8451b01421d7f9db87954f37a5f5f30158d24a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:04 +0000
Subject: [PATCH 31/36] fix: comparing certificates with several attributes or
 extensions of one id

---
 hgaa/attcert.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 75a9258..a614e3e 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -690,8 +690,6 @@ class AttributeCertificate(object):
                             if self_att == other_att:
                                 ok = True
                                 break
-                            else:
-                                return False
                     if not ok:
                         return False
             else:
@@ -710,8 +708,6 @@ class AttributeCertificate(object):
                             if self_ext == other_ext:
                                 ok = True
                                 break
-                            else:
-                                return False
                     if not ok:
                         return False
             else:
-- 
2.43.0


From f8eed3f9580b6cf7562cc4d31cbe4cb36f98234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:54 +0000
Subject: [PATCH 32/36] fix: unknown certificate format numbers are a client
 fault

---
 hgaa/services/pauth.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index f107e15..0e068f8 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -245,7 +245,13 @@ class PolicyAuthority(object):
         for raw_cert in att_cert_set.attribute_certificates:
             raw_bytes = raw_cert.data.read()
             raw_cert.data_raw = bytearray(raw_bytes)
-            raw_cert.format = ExportFormat(raw_cert.format)
+            try:
+                raw_cert.format = ExportFormat(raw_cert.format)
+            except ValueError:
+                PolicyAuthority.LOG.error(
+                    'ClientFault: Invalid ac format in request from %s'
+                    % exports['REMOTE_ADDR'])
+                raise ClientFault('Unsupported attribute certificate format in certificate set.')
 
             cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')
             if cert is not None:
-- 
2.43.0


From 087f3718b1928bd215dc9ad4bbb8df0d66d9f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:55 +0000
Subject: [PATCH 33/36] fix: keep password hashes out of the SQL log

SQLAlchemy writes statement parameters (info level) and result rows (debug level) to the SQL log, so
with the shipped SQL_LOG_LEVEL=ALL every login and every population wrote password hashes to it.
---
 hgaa/database.py | 3 ++-
 hgaa/log.py      | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index 3887fc1..7cbaf87 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -79,7 +79,8 @@ def get_engine(hgaa_name, parent_log=SERVICE_LOG):
             return None
 
         log.debug('Connecting to %s database %s', dbtype, dbname)
-        engine = create_engine(connect, echo=False, logging_name=log.name, pool_logging_name=log.name)
+        engine = create_engine(connect, echo=False, hide_parameters=True, logging_name=log.name,
+                               pool_logging_name=log.name)
         ACTIVE_ENGINES[hgaa_name] = engine
     return engine
 
diff --git a/hgaa/log.py b/hgaa/log.py
index 81a00c8..60c3641 100644
--- a/hgaa/log.py
+++ b/hgaa/log.py
@@ -123,7 +123,9 @@ def _make_sql_log():
     SQL_LOG = logging.getLogger('sqlalchemy')
 
     SQL_LOG.parent = ROOT_LOG
-    SQL_LOG.setLevel(str_to_log_level(get_conf('SQL_LOG_LEVEL', True, 'DEFAULT')))
+    # SQLAlchemy logs result rows, including password hashes, on debug level: never log those.
+    level = str_to_log_level(get_conf('SQL_LOG_LEVEL', True, 'DEFAULT'))
+    SQL_LOG.setLevel(logging.INFO if level == logging.DEBUG else level)
 
     if get_conf('CLEAN_LOG_ON_START', True, 'DEFAULT').upper() == 'TRUE':
         handler = logging.FileHandler(LOG_DIR + get_conf('SQL_LOG_FILE', True, 'DEFAULT'), mode='w')
-- 
2.43.0


From a287c01e7aa68642dc3310f65a5a4525884813c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:09 +0000
Subject: [PATCH 34/36] fix: number policy tree nodes per encoding

The encoder used ASTNode.id, a process-wide counter that decoded nodes overwrite.
Trees built from decoded and new nodes could hold one id twice and decoded to a
different policy, and no tree could be encoded after 65536 nodes.
---
 hgpl/ast.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 15772d6..e182139 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -333,7 +333,15 @@ class ASTEncoder(object):
     _encoding_body_head = struct.Struct("<HBBHHH")
 
     @staticmethod
-    def _encode_node(node):
+    def _number_nodes(node, ids):
+        # Numbers are given per encoding: node.id is unique neither across processes nor for decoded trees.
+        ids.setdefault(id(node), len(ids))
+        for n in node.children():
+            ASTEncoder._number_nodes(n, ids)
+        return ids
+
+    @staticmethod
+    def _encode_node(node, ids):
         if node.ttype() == TokenType.INT:
             tval_format = 'i'
             tval_size = 4
@@ -361,7 +369,7 @@ class ASTEncoder(object):
                 # TODO: Custom exception
                 raise Exception()
 
-        node_header = ASTEncoder._encoding_body_head.pack(node.id, node.ntype().value, node.ttype().value, node.tpos(), tval_size,
+        node_header = ASTEncoder._encoding_body_head.pack(ids[id(node)], node.ntype().value, node.ttype().value, node.tpos(), tval_size,
                                               node.num_nodes())
         if tval_size > 0:
             tvalue = struct.pack('<' + tval_format, tval)
@@ -369,7 +377,7 @@ class ASTEncoder(object):
             tvalue = None
 
         if node.num_nodes() > 0:
-            child_ids = tuple(child.id for child in node._node_list)
+            child_ids = tuple(ids[id(child)] for child in node._node_list)
             children = struct.pack('<' + str(node.num_nodes()) + 'H', *child_ids)
         else:
             child_ids = None
@@ -386,14 +394,15 @@ class ASTEncoder(object):
         del node_header
 
         for n in node.children():
-            encoded_nodes += ASTEncoder._encode_node(n)
+            encoded_nodes += ASTEncoder._encode_node(n, ids)
 
         return encoded_nodes
 
     @staticmethod
     def encode(ast, encode_in_base64=False):
-        encoded_nodes = ASTEncoder._encode_node(ast)
-        header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ast.id)
+        ids = ASTEncoder._number_nodes(ast, {})
+        encoded_nodes = ASTEncoder._encode_node(ast, ids)
+        header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ids[id(ast)])
         encoded = header + b''.join(encoded_nodes)
 
         if encode_in_base64:
-- 
2.43.0


From d6ad8420bdbfb42cecf048da50f686db4104524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:36 +0000
Subject: [PATCH 35/36] fix: no log file when LOG_FILE is empty

make_logger left an empty LOG_FILE as '' and then opened it as a log file, which fails.
---
 hgaa/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hgaa/log.py b/hgaa/log.py
index 60c3641..c50a045 100644
--- a/hgaa/log.py
+++ b/hgaa/log.py
@@ -52,6 +52,8 @@ def make_logger(hgaa_name, service=True, parent=None):
 
     if logfile is not None and logfile.lower() != 'none' and logfile.lower() != 'false' and logfile != '':
         logfile = LOG_DIR + logfile
+    else:
+        logfile = None
 
     if service:
         if SERVICE_LOG is not None:
-- 
2.43.0


From 58fc336b437dadc51f7c592e6fddcce27a3c5c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:36 +0000
Subject: [PATCH 36/36] fix: print the symbols of a symbol table

SymbolTable.__str__ iterated over the names and failed for every non-empty table.
---
 hgpl/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index 78483fc..28fa53d 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -204,7 +204,7 @@ class SymbolTable(object):
 
     def __str__(self):
         string = "Name\t\tSymbol Type\t\tValue\t\tAtt Type\n"
-        for s in self._symbols:
+        for s in self._symbols.values():
                 string += s.name.lower() + "\t\t" + s.type.name + "\t\t" + str(s.value) + "\t\t" + s.att_type.name + \
                           "\n"
 
-- 
2.43.0

