From 870faae64822081d50a17a9b3730a1830db59918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 01/88] fix: give real variables their own name instead of the
 keyword

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0de0264..8274229 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -727,7 +727,7 @@ class VerilogParser(object):
     # Real
     def p_realdecl(self, p):
         'realdecl : REAL realnamelist SEMICOLON'
-        reallist = [Real(p[1],
+        reallist = [Real(r,
                          Width(msb=IntConst('31', lineno=p.lineno(2)),
                                lsb=IntConst('0', lineno=p.lineno(2)),
                                lineno=p.lineno(2)),
-- 
2.43.0


From b66ab41d7c9c88ef00cd4bcf037134632a7ae3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 02/88] fix: read the name list of 'integer signed'
 declarations

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 8274229..fc89890 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -700,7 +700,7 @@ class VerilogParser(object):
                                  lineno=p.lineno(3)),
                            signed=True,
                            value=rvalue,
-                           lineno=p.lineno(3)) for rname, rvalue in p[2]]
+                           lineno=p.lineno(3)) for rname, rvalue in p[3]]
         p[0] = Decl(tuple(intlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
-- 
2.43.0


From 1f173ffd69f7f24d3f6733758e74a50c18cc0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 03/88] fix: use the identifier, not the delay, as name of a
 delayed net declaration

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index fc89890..075e285 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -676,7 +676,7 @@ class VerilogParser(object):
         'declassign_element : delays ID EQUALS delays rvalue'
         assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(1)), lineno=p.lineno(2)),
                         p[5], p[1], p[4], lineno=p.lineno(2))
-        p[0] = (p[1], assign)
+        p[0] = (p[2], assign)
         p.set_lineno(0, p.lineno(2))
 
     # Integer
-- 
2.43.0


From e88a44a8bcabf686ef88ac8a9577bb8578c4bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 04/88] fix: accept X as first digit of signed binary literals

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8fe6628..58587a3 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -181,7 +181,7 @@ class VerilogLexer(object):
     t_DOLLER = r'\$'
 
     bin_number = '[0-9]*\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
-    signed_bin_number = '[0-9]*\'[sS][bB][0-1xZzZ?][0-1xXzZ?_]*'
+    signed_bin_number = '[0-9]*\'[sS][bB][0-1xXzZ?][0-1xXzZ?_]*'
     octal_number = '[0-9]*\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
     signed_octal_number = '[0-9]*\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
     hex_number = '[0-9]*\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-- 
2.43.0


From 6f70f0081ac6d5a7018ac57c53f9af379029196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 05/88] fix: lower indexed part-selects to the bits they denote

---
 pyverilog/vparser/parser.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 075e285..2f4b400 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -849,6 +849,18 @@ class VerilogParser(object):
         p[0].end_lineno = p.lineno(7)
 
     # --------------------------------------------------------------------------
+    def _plus_partselect(self, var, base, width, lineno):
+        # var[base +: width] is var[base + width - 1 : base]
+        msb = Minus(Plus(base, width, lineno=lineno),
+                    IntConst('1', lineno=lineno), lineno=lineno)
+        return Partselect(var, msb, base, lineno=lineno)
+
+    def _minus_partselect(self, var, base, width, lineno):
+        # var[base -: width] is var[base : base - width + 1]
+        lsb = Plus(Minus(base, width, lineno=lineno),
+                   IntConst('1', lineno=lineno), lineno=lineno)
+        return Partselect(var, base, lsb, lineno=lineno)
+
     def p_lpartselect_lpointer(self, p):
         'lpartselect : pointer LBRACKET expression COLON expression RBRACKET'
         p[0] = Partselect(p[1], p[3], p[5], lineno=p.lineno(1))
@@ -856,12 +868,12 @@ class VerilogParser(object):
 
     def p_lpartselect_lpointer_plus(self, p):
         'lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._plus_partselect(p[1], p[3], p[5], p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_lpointer_minus(self, p):
         'lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._minus_partselect(p[1], p[3], p[5], p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect(self, p):
@@ -871,12 +883,12 @@ class VerilogParser(object):
 
     def p_lpartselect_plus(self, p):
         'lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._plus_partselect(p[1], p[3], p[5], p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_minus(self, p):
         'lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._minus_partselect(p[1], p[3], p[5], p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpointer(self, p):
@@ -1217,14 +1229,12 @@ class VerilogParser(object):
 
     def p_partselect_plus(self, p):
         'partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._plus_partselect(p[1], p[3], p[5], p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_minus(self, p):
         'partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._minus_partselect(p[1], p[3], p[5], p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer(self, p):
@@ -1234,14 +1244,12 @@ class VerilogParser(object):
 
     def p_partselect_pointer_plus(self, p):
         'partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._plus_partselect(p[1], p[3], p[5], p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer_minus(self, p):
         'partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._minus_partselect(p[1], p[3], p[5], p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_pointer(self, p):
-- 
2.43.0


From f0b4592473ea4d30114d4178b46dd26d13d58368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 06/88] fix: repeat signedness and net type for port names that
 continue a declaration

---
 pyverilog/vparser/parser.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 2f4b400..5316c5f 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -339,26 +339,15 @@ class VerilogParser(object):
     def p_ioports(self, p):
         'ioports : ioports COMMA ioport'
         if isinstance(p[3], str):
-            t = None
-            for r in reversed(p[1]):
-                if isinstance(r.first, Input):
-                    t = Ioport(Input(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and r.second is None:
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and isinstance(r.second, Reg):
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               Reg(name=p[3], width=r.first.width,
-                                   lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Inout):
-                    t = Ioport(Inout(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
+            # a bare name repeats the declaration of the previous port
+            prev = p[1][-1]
+            first = prev.first.__class__(name=p[3], width=prev.first.width,
+                                         signed=prev.first.signed, lineno=p.lineno(3))
+            second = None
+            if prev.second is not None:
+                second = prev.second.__class__(name=p[3], width=prev.second.width,
+                                               signed=prev.second.signed, lineno=p.lineno(3))
+            t = Ioport(first, second, lineno=p.lineno(3))
             p[0] = p[1] + (t,)
         else:
             p[0] = p[1] + (p[3],)
-- 
2.43.0


From edb5546e33b052c7b5ef9d06cde053c944a35f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 07/88] fix: take the right symbols of a unique case statement

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 5316c5f..d6ab66a 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1689,7 +1689,7 @@ class VerilogParser(object):
 
     def p_unique_case_statement(self, p):
         'unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE'
-        p[0] = UniqueCaseStatement(p[3], p[5], lineno=p.lineno(1))
+        p[0] = UniqueCaseStatement(p[4], p[6], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(7)
 
-- 
2.43.0


From 61413a6fcad31801fe1cef908065a91a397f5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 08/88] fix: record the last line of loops, waits, events and
 parallel blocks used as statement bodies

---
 pyverilog/vparser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index d6ab66a..136731f 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1566,11 +1566,13 @@ class VerilogParser(object):
         'parallelblock : FORK block_statements JOIN'
         p[0] = ParallelBlock(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(3)
 
     def p_parallelblock_empty(self, p):
         'parallelblock : FORK JOIN'
         p[0] = ParallelBlock((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_if_statement(self, p):
@@ -1622,6 +1624,7 @@ class VerilogParser(object):
         'for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement'
         p[0] = ForStatement(p[3], p[4], p[5], p[7], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[7].end_lineno
 
     def p_forpre(self, p):
         'forpre : blocking_substitution'
@@ -1662,6 +1665,7 @@ class VerilogParser(object):
         'while_statement : WHILE LPAREN cond RPAREN whilecontent_statement'
         p[0] = WhileStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno
 
     def p_whilecontent_statement(self, p):
         'whilecontent_statement : basic_statement'
@@ -1744,12 +1748,14 @@ class VerilogParser(object):
         'event_statement : senslist SEMICOLON'
         p[0] = EventStatement(p[1], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_wait_statement(self, p):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno if p[5] is not None else p.lineno(4)
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
@@ -1766,6 +1772,7 @@ class VerilogParser(object):
         'forever_statement : FOREVER basic_statement'
         p[0] = ForeverStatement(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[2].end_lineno
 
     # --------------------------------------------------------------------------
     def p_instance(self, p):
-- 
2.43.0


From b901b8654caa210d6c0b81c4065f86fb2ff730dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 09/88] fix: generate the arithmetic left shift operator

---
 pyverilog/ast_code_generator/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9b87569..2cc1a2b 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -574,6 +574,9 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Srl(self, node):
         return self.visit_Operator(node)
 
+    def visit_Sla(self, node):
+        return self.visit_Operator(node)
+
     def visit_Sra(self, node):
         return self.visit_Operator(node)
 
-- 
2.43.0


From 3fb838d4b65e64c8e774bfbbd60db2b5391becce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 10/88] fix: spell the disable statement correctly in generated
 code

---
 pyverilog/ast_code_generator/template/disable.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/disable.txt b/pyverilog/ast_code_generator/template/disable.txt
index a0a9ae8..1752fde 100644
--- a/pyverilog/ast_code_generator/template/disable.txt
+++ b/pyverilog/ast_code_generator/template/disable.txt
@@ -1 +1 @@
-diable {{ name }}
+disable {{ name }}
-- 
2.43.0


From 13c8f70c02111616dfd41e49ee779b877d93ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 11/88] fix: generate casez and unique case statements

---
 pyverilog/ast_code_generator/codegen.py                     | 6 ++++++
 pyverilog/ast_code_generator/template/casezstatement.txt    | 5 +++++
 .../ast_code_generator/template/uniquecasestatement.txt     | 5 +++++
 3 files changed, 16 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/casezstatement.txt
 create mode 100644 pyverilog/ast_code_generator/template/uniquecasestatement.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 2cc1a2b..ab5948e 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -773,6 +773,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def visit_Case(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/casezstatement.txt b/pyverilog/ast_code_generator/template/casezstatement.txt
new file mode 100644
index 0000000..4a897b1
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/casezstatement.txt
@@ -0,0 +1,5 @@
+casez({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
diff --git a/pyverilog/ast_code_generator/template/uniquecasestatement.txt b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
new file mode 100644
index 0000000..88ec8f8
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
@@ -0,0 +1,5 @@
+unique case({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
-- 
2.43.0


From 1a6215be774476acb3e5a8fbe2f6cc9e487f4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 12/88] fix: generate always_ff, always_comb and always_latch

---
 pyverilog/ast_code_generator/codegen.py               | 9 +++++++++
 pyverilog/ast_code_generator/template/alwayscomb.txt  | 3 +++
 pyverilog/ast_code_generator/template/alwaysff.txt    | 3 +++
 pyverilog/ast_code_generator/template/alwayslatch.txt | 3 +++
 4 files changed, 18 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/alwayscomb.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwaysff.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwayslatch.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index ab5948e..73f5d56 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -658,6 +658,15 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
new file mode 100644
index 0000000..5616e92
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -0,0 +1,3 @@
+
+always_comb {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
new file mode 100644
index 0000000..11860f0
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -0,0 +1,3 @@
+
+always_ff @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
new file mode 100644
index 0000000..bab6087
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -0,0 +1,3 @@
+
+always_latch {{ statement }}
+
-- 
2.43.0


From 148bcdd30d98c3856caaa4f44ae966fb709faffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 13/88] fix: generate supply0 and supply1 declarations

---
 pyverilog/ast_code_generator/codegen.py          | 12 ++++++++++++
 pyverilog/ast_code_generator/template/supply.txt |  1 +
 2 files changed, 13 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/supply.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 73f5d56..527890e 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -403,6 +403,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Supply(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'name': escape(node.name),
+            'width': '' if node.width is None else self.visit(node.width),
+            'value': self.visit(node.value),
+            'signed': node.signed,
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Decl(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/supply.txt b/pyverilog/ast_code_generator/template/supply.txt
new file mode 100644
index 0000000..7500dc9
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/supply.txt
@@ -0,0 +1 @@
+supply{{ value }} {% if signed %}signed {% endif %}{% if width != '' %}{{ width }} {% endif %}{{ name }};
-- 
2.43.0


From 23291254c7720b90f5674962e423161eee62041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 14/88] fix: keep delays of continuous assignments in generated
 code

---
 pyverilog/ast_code_generator/codegen.py          | 2 ++
 pyverilog/ast_code_generator/template/assign.txt | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 527890e..5194334 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -655,6 +655,8 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'left': self.visit(node.left),
             'right': self.visit(node.right),
+            'ldelay': '' if node.ldelay is None else self.visit(node.ldelay),
+            'rdelay': '' if node.rdelay is None else self.visit(node.rdelay),
         }
         rslt = template.render(template_dict)
         rslt = indent_multiline_assign(rslt)
diff --git a/pyverilog/ast_code_generator/template/assign.txt b/pyverilog/ast_code_generator/template/assign.txt
index 86c1391..233f2e2 100644
--- a/pyverilog/ast_code_generator/template/assign.txt
+++ b/pyverilog/ast_code_generator/template/assign.txt
@@ -1 +1 @@
-assign {{ left }} = {{ right }};
+assign {% if ldelay != '' %}{{ ldelay }} {% endif %}{{ left }} = {% if rdelay != '' %}{{ rdelay }} {% endif %}{{ right }};
-- 
2.43.0


From c42ac98a2f0142eb69a3bd1405e0081548c5699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 15/88] fix: keep initial values of integer declarations in
 generated code

---
 pyverilog/ast_code_generator/codegen.py           | 1 +
 pyverilog/ast_code_generator/template/integer.txt | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 5194334..c80a38f 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -341,6 +341,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'name': escape(node.name),
             'signed': node.signed,
+            'value': '' if node.value is None else self.visit(node.value),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/integer.txt b/pyverilog/ast_code_generator/template/integer.txt
index 4f9e337..a3191c8 100644
--- a/pyverilog/ast_code_generator/template/integer.txt
+++ b/pyverilog/ast_code_generator/template/integer.txt
@@ -1 +1 @@
-integer {{ name }};
+integer {{ name }}{% if value != '' %} = {{ value }}{% endif %};
-- 
2.43.0


From 005f99d4077043aab7ba1afa5570d6c4a71beebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 16/88] fix: separate parameters of one declaration and keep
 semicolons inside strings

---
 pyverilog/ast_code_generator/codegen.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index c80a38f..d8b7d56 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -95,6 +95,12 @@ def del_paren(s):
     return s
 
 
+def del_semicolon(s):
+    if s.endswith(';'):
+        return s[:-1]
+    return s
+
+
 def del_space(s):
     return s.replace(' ', '')
 
@@ -148,7 +154,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).replace(';', '') for param in node.params]
+        params = []
+        for param in node.params:
+            decls = param.list if isinstance(param, Decl) else (param,)
+            params.extend([del_semicolon(self.visit(decl)) for decl in decls])
         template_dict = {
             'params': params,
             'len_params': len(params),
@@ -761,7 +770,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
-            'post': '' if node.post is None else del_space(self.visit(node.post).replace(';', '')),
+            'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
         }
         rslt = template.render(template_dict)
-- 
2.43.0


From a110bc942a810e48885ec31d8e07952727e8fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 17/88] fix: keep tokens apart where spaces are removed from
 generated code

---
 pyverilog/ast_code_generator/codegen.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index d8b7d56..825d9c9 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -102,7 +102,28 @@ def del_semicolon(s):
 
 
 def del_space(s):
-    return s.replace(' ', '')
+    """ Delete the spaces that are not needed to keep tokens apart """
+    tokens = [t for t in re.findall(r'"(?:\\.|[^"\\])*"|\\\S+ ?| +|[^ "\\]+|.', s, re.DOTALL)
+              if not t.startswith(' ')]
+    ret = []
+    for token in tokens:
+        if ret and _need_space(ret[-1], token):
+            ret.append(' ')
+        ret.append(token)
+    return ''.join(ret)
+
+
+def _need_space(left, right):
+    if left.startswith('\\'):
+        return False
+    if _is_word(left[-1]) and (_is_word(right[0]) or right[0] == '\\'):
+        return True
+    operator_chars = '+-*/%&|^~!<>='
+    return left[-1] in operator_chars and right[0] in operator_chars
+
+
+def _is_word(c):
+    return c.isalnum() or c in "_$'"
 
 
 class ASTCodeGenerator(ConvertVisitor):
-- 
2.43.0


From b829ee4bdc0d0c3db5378c4dbfff364e9d2afd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 18/88] fix: keep the separator of a for loop without
 initialisation in generated code

---
 pyverilog/ast_code_generator/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 825d9c9..cc3d6d4 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -789,7 +789,7 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
+            'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
-- 
2.43.0


From fed2af6f2c563e73ef8153428bc0ac7f350b5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 19/88] fix: put delays that are not plain values in
 parentheses in generated code

---
 pyverilog/ast_code_generator/codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index cc3d6d4..2bb0112 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -899,8 +899,11 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_DelayStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        delay = self.visit(node.delay)
+        if not isinstance(node.delay, (Identifier, IntConst, FloatConst)):
+            delay = '(' + del_paren(delay) + ')'
         template_dict = {
-            'delay': self.visit(node.delay),
+            'delay': delay,
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 5840b38dfdc3bbe59bfc40fc47ea2e5ca8a77206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 20/88] fix: group a multi-name declaration that is the body of
 a generate construct

---
 pyverilog/ast_code_generator/codegen.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 2bb0112..99e0b8b 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -772,11 +772,17 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = indent_multiline_assign(rslt)
         return rslt
 
+    def visit_body(self, statement):
+        # one declaration of several names is generated as several items
+        if isinstance(statement, Decl) and len(statement.list) > 1:
+            statement = Block((statement,))
+        return self.visit(statement)
+
     def visit_IfStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        true_statement = '' if node.true_statement is None else self.visit(node.true_statement)
-        false_statement = '' if node.false_statement is None else self.visit(node.false_statement)
+        true_statement = '' if node.true_statement is None else self.visit_body(node.true_statement)
+        false_statement = '' if node.false_statement is None else self.visit_body(node.false_statement)
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
             'true_statement': true_statement,
@@ -792,7 +798,7 @@ class ASTCodeGenerator(ConvertVisitor):
             'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
-            'statement': '' if node.statement is None else self.visit(node.statement),
+            'statement': '' if node.statement is None else self.visit_body(node.statement),
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 134cbc22c7a7b5f74b10114529d493e32e080d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 21/88] fix: keep the else branch with its own if in generated
 code

---
 pyverilog/ast_code_generator/codegen.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 99e0b8b..5e198ee 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -126,6 +126,16 @@ def _is_word(c):
     return c.isalnum() or c in "_$'"
 
 
+def ends_with_open_if(statement):
+    """ Would a following 'else' belong to an 'if' inside of the statement? """
+    if isinstance(statement, IfStatement):
+        return statement.false_statement is None or ends_with_open_if(statement.false_statement)
+    if isinstance(statement, (ForStatement, WhileStatement, ForeverStatement, WaitStatement,
+                              Always, Initial)):
+        return ends_with_open_if(statement.statement)
+    return False
+
+
 class ASTCodeGenerator(ConvertVisitor):
     def __init__(self, indentsize=2):
         self.env = Environment(loader=FileSystemLoader(DEFAULT_TEMPLATE_DIR))
@@ -781,7 +791,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_IfStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        true_statement = '' if node.true_statement is None else self.visit_body(node.true_statement)
+        true_statement = node.true_statement
+        if node.false_statement is not None and ends_with_open_if(true_statement):
+            true_statement = Block((true_statement,))
+        true_statement = '' if true_statement is None else self.visit_body(true_statement)
         false_statement = '' if node.false_statement is None else self.visit_body(node.false_statement)
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
-- 
2.43.0


From ee00ab4bd1f0747aa913e84ba168450cfad06a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 22/88] fix: keep the items of a generate region apart in
 generated code

---
 pyverilog/ast_code_generator/template/generatestatement.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/generatestatement.txt b/pyverilog/ast_code_generator/template/generatestatement.txt
index f7447a0..527d6dc 100644
--- a/pyverilog/ast_code_generator/template/generatestatement.txt
+++ b/pyverilog/ast_code_generator/template/generatestatement.txt
@@ -1,4 +1,5 @@
 
-generate {% for item in items %}{{ item }}{% endfor %}
+generate {% for item in items %}{{ item }}{% if not loop.last %}
+{% endif %}{% endfor %}
 endgenerate
 
-- 
2.43.0


From 828f79e74f449e7b95f6a72be01be0c7dc265c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 23/88] fix: keep the width of parameters with a string value
 in generated code

---
 pyverilog/ast_code_generator/codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 5e198ee..f9d3a6d 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -424,7 +424,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
@@ -437,7 +437,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
-- 
2.43.0


From befd759cb3eace71f8ef54656c666198541387c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 24/88] fix: initialize variables in their declaration in
 generated code

---
 pyverilog/ast_code_generator/codegen.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index f9d3a6d..308779b 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -459,8 +459,18 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Decl(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        items = []
+        prev = None
+        for item in node.list:
+            if (isinstance(prev, Reg) and isinstance(item, Assign) and
+                    item.ldelay is None and item.rdelay is None):
+                # a variable is initialized by its declaration, not by an assign statement
+                items[-1] = del_semicolon(items[-1]) + ' = ' + self.visit(item.right) + ';'
+            else:
+                items.append(self.visit(item))
+            prev = item
         template_dict = {
-            'items': [self.visit(item) for item in node.list],
+            'items': items,
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 2e332780eea63e5e40428aaed4ec9b69de8b4275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 25/88] fix: keep the digit '?' of a number apart from the next
 word in generated code

---
 pyverilog/ast_code_generator/codegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 308779b..dc7c021 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -116,7 +116,8 @@ def del_space(s):
 def _need_space(left, right):
     if left.startswith('\\'):
         return False
-    if _is_word(left[-1]) and (_is_word(right[0]) or right[0] == '\\'):
+    if ((_is_word(left[-1]) or re.search(r"'[sS]?[bodhBODH][0-9a-fA-FxXzZ?_]*$", left)) and
+            (_is_word(right[0]) or right[0] in '\\?')):
         return True
     operator_chars = '+-*/%&|^~!<>='
     return left[-1] in operator_chars and right[0] in operator_chars
-- 
2.43.0


From f1ac1f060c9770f67263c9acf80d4fb7380b8669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 26/88] fix: take the last line of an empty wait from its
 semicolon

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 136731f..08e33f4 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1755,7 +1755,7 @@ class VerilogParser(object):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
-        p[0].end_lineno = p[5].end_lineno if p[5] is not None else p.lineno(4)
+        p[0].end_lineno = p[5].end_lineno if p[5] is not None else p.lineno(5)
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
-- 
2.43.0


From 58ab6ece916545430280e0856bae13d7487c72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 27/88] fix: accept carriage return and form feed as white
 space

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 58587a3..7cd9a20 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -95,7 +95,7 @@ class VerilogLexer(object):
     )
 
     # Ignore
-    t_ignore = ' \t'
+    t_ignore = ' \t\r\f'
 
     # Directive
     directive = r"""\`.*?\n"""
-- 
2.43.0


From 9a3cadfef00c0296a6a04f7fd6d06d376e714d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 28/88] fix: accept a line comment or directive on a last line
 without newline

---
 pyverilog/vparser/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 7cd9a20..171b282 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -98,7 +98,7 @@ class VerilogLexer(object):
     t_ignore = ' \t\r\f'
 
     # Directive
-    directive = r"""\`.*?\n"""
+    directive = r"""\`[^\n]*(\n|$)"""
 
     @TOKEN(directive)
     def t_DIRECTIVE(self, t):
@@ -110,7 +110,7 @@ class VerilogLexer(object):
         pass
 
     # Comment
-    linecomment = r"""//.*?\n"""
+    linecomment = r"""//[^\n]*(\n|$)"""
     commentout = r"""/\*(.|\n)*?\*/"""
 
     @TOKEN(linecomment)
-- 
2.43.0


From f62fc8e05b5b595bc5fe241e520f0e24df80a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 29/88] fix: start every parse of a parser object with a fresh
 lexer state

---
 pyverilog/vparser/lexer.py  | 6 ++++++
 pyverilog/vparser/parser.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 171b282..74c7340 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -41,6 +41,12 @@ class VerilogLexer(object):
     def reset_lineno(self):
         self.lexer.lineno = 1
 
+    def reset(self):
+        """ Forget everything about the previous input """
+        self.reset_lineno()
+        self.directives = []
+        self.default_nettype = 'wire'
+
     def get_directives(self):
         return tuple(self.directives)
 
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 08e33f4..9faf1e5 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -74,6 +74,7 @@ class VerilogParser(object):
 
     # Returns AST
     def parse(self, text, debug=0):
+        self.lexer.reset()
         return self.parser.parse(text, lexer=self.lexer, debug=debug)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 3fa7ffa55e1e2c906d809ab416bf2ffb0b5547fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 30/88] fix: report illegal characters of a token dump on
 stderr

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 74c7340..ef4fd6e 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -283,7 +283,7 @@ class VerilogLexer(object):
 
 def dump_tokens(text):
     def my_error_func(msg, a, b):
-        sys.write(msg + "\n")
+        sys.stderr.write(msg + "\n")
         sys.exit()
 
     lexer = VerilogLexer(error_func=my_error_func)
-- 
2.43.0


From 4965f5a2e1a89e763c4e0944668a7c278568f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 31/88] fix: reject scope names with several indices by a parse
 error

---
 pyverilog/vparser/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 9faf1e5..b60e52c 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -2249,6 +2249,8 @@ class VerilogParser(object):
 
     def p_scope_pointer(self, p):
         'scope : pointer DOT'
+        if not isinstance(p[1].var, Identifier):
+            raise ParseError('%s: scope name with several indices' % self._coord(p.lineno(2)))
         scope = () if p[1].var.scope is None else p[1].var.scope.labellist
         p[0] = IdentifierScope(scope + (IdentifierScopeLabel(p[1].var.name,
                                                              p[1].ptr, lineno=p.lineno(1)),), lineno=p.lineno(1))
-- 
2.43.0


From 451b17d5a2f54b0e5d320571012cade1b8be6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 32/88] fix: match every escape sequence of a string in one way
 only

---
 pyverilog/vparser/lexer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index ef4fd6e..d3f97e7 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -201,10 +201,10 @@ class VerilogLexer(object):
     float_number = '((((' + fractional_constant + ')' + \
         exponent_part + '?)|([0-9]+' + exponent_part + ')))'
 
-    simple_escape = r"""([a-zA-Z\\?'"])"""
-    octal_escape = r"""([0-7]{1,3})"""
-    hex_escape = r"""(x[0-9a-fA-F]+)"""
-    escape_sequence = r"""(\\(""" + simple_escape + '|' + octal_escape + '|' + hex_escape + '))'
+    # The digits after the first one of an octal or hexadecimal escape are plain
+    # characters. Every character must match in one way only, or else the time
+    # for an unterminated string grows exponentially.
+    escape_sequence = r"""(\\[a-zA-Z0-7\\?'"])"""
     string_char = r"""([^"\\\n]|""" + escape_sequence + ')'
     string_literal = '"' + string_char + '*"'
 
-- 
2.43.0


From 1f6c32c72c6487bbc6341105a5a038d18a0a7637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 33/88] fix: give a module the default_nettype in force at its
 start

---
 pyverilog/vparser/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index b60e52c..60094fa 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -127,7 +127,7 @@ class VerilogParser(object):
     def p_moduledef(self, p):
         'moduledef : MODULE modulename paramlist portlist items ENDMODULE'
         p[0] = ModuleDef(name=p[2], paramlist=p[3], portlist=p[4], items=p[5],
-                         default_nettype=self.get_default_nettype(), lineno=p.lineno(1))
+                         default_nettype=self.default_nettype, lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(6)
 
@@ -135,11 +135,14 @@ class VerilogParser(object):
         'modulename : ID'
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
+        # at the end of the module the lexer is already ahead of it
+        self.default_nettype = self.get_default_nettype()
 
     def p_modulename_or(self, p):
         'modulename : SENS_OR'  # or primitive
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
+        self.default_nettype = self.get_default_nettype()
 
     def p_paramlist(self, p):
         'paramlist : DELAY LPAREN params RPAREN'
-- 
2.43.0


From 2edf401b704932da496dbe37de85f606f8694e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 34/88] fix: compare all members of AST nodes, in both
 directions

---
 pyverilog/vparser/ast.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index df288ed..a9e4e38 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -62,13 +62,17 @@ class Node(object):
         if self_attrs != other_attrs:
             return False
 
-        other_children = other.children()
-
-        for i, c in enumerate(self.children()):
-            if c != other_children[i]:
-                return False
-
-        return True
+        return self._child_members() == other._child_members()
+
+    def _child_members(self):
+        """ Children by the name of their member, for members that are not empty """
+        ret = {}
+        for name, value in vars(self).items():
+            if isinstance(value, (list, tuple)) and value:
+                ret[name] = tuple(value)
+            elif isinstance(value, Node):
+                ret[name] = value
+        return ret
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -1285,6 +1289,7 @@ class EmbeddedCode(Node):
     attr_names = ('code',)
 
     def __init__(self, code, lineno=0):
+        self.lineno = lineno
         self.code = code
 
     def children(self):
-- 
2.43.0


From a0c502e29fd66b94db5dd4ac1282926045edb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 35/88] fix: accept a single source as file list of the
 preprocessor

---
 pyverilog/vparser/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 4a45548..e40ea2f 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -32,7 +32,7 @@ class VerilogPreprocessor(object):
     def __init__(self, filelist, outputfile='pp.out', include=None, define=None):
 
         if not isinstance(filelist, (tuple, list)):
-            filelist = list(filelist)
+            filelist = [filelist]
 
         # Elements in `filelist` can either be raw Verilog files, or Verilog code
         # in python string. The following loop iterates through these `sources`,
-- 
2.43.0


From 2a95214844ada0fbd9ae253f88bfecd0b78310e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 36/88] fix: preprocess source strings in the order given and
 remove their files in any case

---
 pyverilog/vparser/preprocessor.py | 52 +++++++++++++++----------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index e40ea2f..ecd12cd 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -35,27 +35,9 @@ class VerilogPreprocessor(object):
             filelist = [filelist]
 
         # Elements in `filelist` can either be raw Verilog files, or Verilog code
-        # in python string. The following loop iterates through these `sources`,
-        # and normalizes all of them into files.
-        #
-        # For Verilog code in python string, the contents of the string is stored
-        # in a temporary file for further use with `iverilog`.
-        self.temp_files_paths = []
-        self.filelist = []
-
-        for source in filelist:
-            # If `source` is verilog code in python strings
-            if not os.path.isfile(source):
-                temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
-                with open(temp_fd, 'w') as f:
-                    f.write(source)
-
-                self.temp_files_paths.append(temp_path)
-
-            else: # else if it is normal verilog file path
-                self.filelist.append(source)
-
-        self.filelist += self.temp_files_paths
+        # in python string. Verilog code in python string is stored in a temporary
+        # file for further use with `iverilog`.
+        self.filelist = list(filelist)
 
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
@@ -82,12 +64,28 @@ class VerilogPreprocessor(object):
         self.iv.append(outputfile)
 
     def preprocess(self):
-        cmd = self.iv + list(self.filelist)
-        subprocess.call(cmd)
-
-        # Removing the temporary files that were created
-        for temp_file_path in self.temp_files_paths:
-            os.remove(temp_file_path)
+        temp_files_paths = []
+        paths = []
+
+        try:
+            for source in self.filelist:
+                # If `source` is verilog code in python strings
+                if not os.path.isfile(source):
+                    temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
+                    temp_files_paths.append(temp_path)
+                    with open(temp_fd, 'w') as f:
+                        f.write(source)
+                    paths.append(temp_path)
+
+                else: # else if it is normal verilog file path
+                    paths.append(source)
+
+            subprocess.call(self.iv + paths)
+
+        finally:
+            # Removing the temporary files that were created
+            for temp_file_path in temp_files_paths:
+                os.remove(temp_file_path)
 
 
 def preprocess(
-- 
2.43.0


From 85eeca4caced44334de8e4b3d49d806f1793c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 37/88] fix: fail when the preprocessor reports an error
 instead of parsing what it left

---
 pyverilog/vparser/preprocessor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index ecd12cd..deeefb8 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -63,6 +63,8 @@ class VerilogPreprocessor(object):
         self.iv.append('-o')
         self.iv.append(outputfile)
 
+        self.outputfile = outputfile
+
     def preprocess(self):
         temp_files_paths = []
         paths = []
@@ -80,7 +82,13 @@ class VerilogPreprocessor(object):
                 else: # else if it is normal verilog file path
                     paths.append(source)
 
-            subprocess.call(self.iv + paths)
+            subprocess.check_call(self.iv + paths)
+
+        except subprocess.CalledProcessError:
+            # What was written before the error is not the source
+            if os.path.exists(self.outputfile):
+                os.remove(self.outputfile)
+            raise
 
         finally:
             # Removing the temporary files that were created
-- 
2.43.0


From 86b70abf73afe046ed048e6e59d3060fc5385d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 38/88] fix: bind the assigned part in concatenated and partial
 assignments, keep the rest under nested conditions

- the tree of a partial blocking assignment is the assigned part of the renamed signal
- the part of a concatenated left side is selected once, from the assigned value only
- an assignment under several conditions keeps the previous value where any of them fails
---
 pyverilog/dataflow/bindvisitor.py | 49 ++++++++++++-------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cb73857..bdb3a07 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1310,9 +1310,9 @@ class BindVisitor(NodeVisitor):
                 ret.append((name, msb, lsb, ptr, None, None))
                 continue
 
-            if msb is None and lsb is None:
-                msb, lsb = self.getTermWidth(name)
-            diff = reorder.reorder(DFOperator((msb, lsb), 'Minus'))
+            dst_msb, dst_lsb = ((msb, lsb) if msb is not None
+                                else self.getTermWidth(name))
+            diff = reorder.reorder(DFOperator((dst_msb, dst_lsb), 'Minus'))
             part_lsb = part_offset
             part_msb = reorder.reorder(DFOperator((part_offset, diff), 'Plus'))
             part_offset = reorder.reorder(
@@ -1460,9 +1460,13 @@ class BindVisitor(NodeVisitor):
         term_i = 0
         for name, msb, lsb, ptr, part_msb, part_lsb in dst:
             renamed_term = DFTerminal(renamed_dst[term_i][0])
+            if ptr is not None:
+                renamed_term = DFPointer(renamed_term, ptr)
+            if msb is not None:
+                renamed_term = DFPartselect(renamed_term, msb, lsb)
             renamed_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
                                          renamed_term, condlist, flowlist,
-                                         num_dst=len(dst), alwaysinfo=alwaysinfo)
+                                         alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
             self.frames.setBlockingAssign(name, renamed_bind, scope)
             term_i += 1
@@ -1471,6 +1475,10 @@ class BindVisitor(NodeVisitor):
                  raw_tree, condlist, flowlist,
                  num_dst=1, alwaysinfo=None, bindtype=None):
 
+        if num_dst > 1:
+            raw_tree = reorder.reorder(
+                DFPartselect(raw_tree, part_msb, part_lsb))
+
         current_bindlist = self.getBindlist(name)
         current_tree = None
         current_msb = None
@@ -1501,18 +1509,10 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
-        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree)
-        if rest_flowlist and rest_tree is not None:
-            _rest_flowlist = rest_flowlist[:-1] + (not rest_flowlist[-1], )
-            add_tree = self.appendBranchTree(add_tree, _rest_flowlist, rest_tree)
-
+        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
 
-        if num_dst > 1:
-            tree = reorder.reorder(
-                DFPartselect(tree, part_msb, part_lsb))
-
         return Bind(tree, name, msb, lsb, ptr, alwaysinfo, bindtype)
 
     def diffBranchTree(self, tree, condlist, flowlist, matchflowlist=()):
@@ -1531,25 +1531,14 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
-    def makeBranchTree(self, condlist, flowlist, node):
+    def makeBranchTree(self, condlist, flowlist, node, rest=None):
+        """node where all conditions hold, rest elsewhere"""
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
-        if len(condlist) == 1:
-            if flowlist[0]:
-                return DFBranch(condlist[0], node, None)
-            else:
-                return DFBranch(condlist[0], None, node)
-        else:
-            if flowlist[0]:
-                return DFBranch(
-                    condlist[0],
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node),
-                    None)
-            else:
-                return DFBranch(
-                    condlist[0],
-                    None,
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node))
+        subtree = self.makeBranchTree(condlist[1:], flowlist[1:], node, rest)
+        if flowlist[0]:
+            return DFBranch(condlist[0], subtree, rest)
+        return DFBranch(condlist[0], rest, subtree)
 
     def appendBranchTree(self, base, pos, tree):
         if len(pos) == 0:
-- 
2.43.0


From 2ff0511afa77e85bb9af6a38d4d1c9a06d4a9655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 39/88] fix: call the existing function for conditions that
 contain a conditional operator

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index bdb3a07..d9a1f27 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1028,7 +1028,7 @@ class BindVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From b6a6a20b90fa8ac9497f55dcee947cd73870d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 40/88] fix: compare both bounds of assigned parts

---
 pyverilog/dataflow/visit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index da67da3..d63e763 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -492,7 +492,7 @@ class Frame(object):
             return
         current = self.blockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.blockingassign[dst][c_i].tree = bind.tree
                 return
         self.blockingassign[dst] = current + (bind,)
@@ -511,7 +511,7 @@ class Frame(object):
             return
         current = self.nonblockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.nonblockingassign[dst][c_i].tree = copy.deepcopy(bind.tree)
                 return
         self.nonblockingassign[dst] = current + (copy.deepcopy(bind),)
-- 
2.43.0


From caf6a72237e143b96d2c0535a44914a1a9a28e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 41/88] fix: keep the values seen by enclosing conditions apart
 from later assignments, merge parts of outer scopes

---
 pyverilog/dataflow/bindvisitor.py | 58 +++++++++++++++++--------------
 pyverilog/dataflow/replace.py     | 31 +++++++++--------
 pyverilog/dataflow/visit.py       | 12 ++++---
 3 files changed, 55 insertions(+), 46 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index d9a1f27..0cdbee4 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -669,7 +669,7 @@ class BindVisitor(NodeVisitor):
         assign = self.frames.getBlockingAssignsScope(scope_copy_from)
         for name, bindlist in assign.items():
             for bind in bindlist:
-                self.frames.setBlockingAssign(name, bind, scope_copy_to)
+                self.frames.setBlockingAssign(name, copy.copy(bind), scope_copy_to)
 
     def setConstant(self, name, value):
         self.optimizer.setConstant(name, value)
@@ -1181,13 +1181,17 @@ class BindVisitor(NodeVisitor):
 
     def removeOverwrappedCondition(self, tree, current_bindlist, scope):
         msb, lsb = self.getTermWidth(tree.name)
-        merged_tree = self.getFitTree(current_bindlist, msb, lsb)
         condlist, flowlist = self.getCondflow(scope)
-        (merged_tree,
-         rest_condlist,
-         rest_flowlist,
-         match_flowlist) = self.diffBranchTree(merged_tree, condlist, flowlist)
-        return replace.replaceUndefined(merged_tree, tree.name)
+        bindlist = []
+        for bind in current_bindlist:
+            (bind_tree,
+             rest_condlist,
+             rest_flowlist,
+             match_flowlist) = self.diffBranchTree(bind.tree, condlist, flowlist)
+            new_bind = copy.copy(bind)
+            new_bind.tree = replace.replaceUndefined(bind_tree, tree.name, bind.msb, bind.lsb)
+            bindlist.append(new_bind)
+        return self.getFitTree(bindlist, msb, lsb)
 
     def resolveBlockingAssign(self, tree, scope):
         if tree is None:
@@ -1278,27 +1282,27 @@ class BindVisitor(NodeVisitor):
         return self.getMergedTree(bindlist)
 
     def getMergedTree(self, bindlist):
+        name = bindlist[0].dest
+        msb, lsb = self.getTermWidth(name)
+        msb = self.optimize(msb).value
+        lsb = self.optimize(lsb).value
         concatlist = []
-        last_msb = -1
-        last_ptr = -1
-
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = (abs(self.optimize(term.msb).value
-                          - self.optimize(term.lsb).value) + 1)
-            return ptr * length + lsb
-        for bind in sorted(bindlist, key=bindkey):
-            lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue)
-                            else bind.ptr.value):
-                continue
-            if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
+        next_lsb = lsb
+
+        def value(tree):
+            return self.optimize(tree).value
+
+        def unassigned(part_msb, part_lsb):
+            return DFPartselect(DFTerminal(name),
+                                DFIntConst(str(part_msb)), DFIntConst(str(part_lsb)))
+
+        for bind in sorted(bindlist, key=lambda x: value(x.lsb)):
+            if value(bind.lsb) > next_lsb:
+                concatlist.append(unassigned(value(bind.lsb) - 1, next_lsb))
             concatlist.append(bind.tree)
-            last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
+            next_lsb = value(bind.msb) + 1
+        if next_lsb <= msb:
+            concatlist.append(unassigned(msb, next_lsb))
         return DFConcat(tuple(reversed(concatlist)))
 
     def getDestinations(self, left, scope):
@@ -1468,7 +1472,7 @@ class BindVisitor(NodeVisitor):
                                          renamed_term, condlist, flowlist,
                                          alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
-            self.frames.setBlockingAssign(name, renamed_bind, scope)
+            self.frames.setBlockingAssign(name, copy.copy(renamed_bind), scope)
             term_i += 1
 
     def makeBind(self, name, msb, lsb, ptr, part_msb, part_lsb,
diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index de4ac8b..04b83ce 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -14,11 +14,12 @@ import os
 from pyverilog.dataflow.dataflow import *
 
 
-def replaceUndefined(tree, termname):
-    if tree is None:
-        return DFTerminal(termname)
-    if isinstance(tree, DFUndefined):
-        return DFTerminal(termname)
+def replaceUndefined(tree, termname, term_msb=None, term_lsb=None):
+    if tree is None or isinstance(tree, DFUndefined):
+        term = DFTerminal(termname)
+        if term_msb is None:
+            return term
+        return DFPartselect(term, term_msb, term_lsb)
     # if isinstance(tree, DFHighImpedance): return DFTerminal(termname)
     if isinstance(tree, DFConstant):
         return tree
@@ -27,27 +28,27 @@ def replaceUndefined(tree, termname):
     if isinstance(tree, DFTerminal):
         return tree
     if isinstance(tree, DFBranch):
-        condnode = replaceUndefined(tree.condnode, termname)
-        truenode = replaceUndefined(tree.truenode, termname)
-        falsenode = replaceUndefined(tree.falsenode, termname)
+        condnode = replaceUndefined(tree.condnode, termname, term_msb, term_lsb)
+        truenode = replaceUndefined(tree.truenode, termname, term_msb, term_lsb)
+        falsenode = replaceUndefined(tree.falsenode, termname, term_msb, term_lsb)
         return DFBranch(condnode, truenode, falsenode)
     if isinstance(tree, DFOperator):
         nextnodes = []
         for n in tree.nextnodes:
-            nextnodes.append(replaceUndefined(n, termname))
+            nextnodes.append(replaceUndefined(n, termname, term_msb, term_lsb))
         return DFOperator(tuple(nextnodes), tree.operator)
     if isinstance(tree, DFPartselect):
-        msb = replaceUndefined(tree.msb, termname)
-        lsb = replaceUndefined(tree.lsb, termname)
-        var = replaceUndefined(tree.var, termname)
+        msb = replaceUndefined(tree.msb, termname, term_msb, term_lsb)
+        lsb = replaceUndefined(tree.lsb, termname, term_msb, term_lsb)
+        var = replaceUndefined(tree.var, termname, term_msb, term_lsb)
         return DFPartselect(var, msb, lsb)
     if isinstance(tree, DFPointer):
-        ptr = replaceUndefined(tree.ptr, termname)
-        var = replaceUndefined(tree.var, termname)
+        ptr = replaceUndefined(tree.ptr, termname, term_msb, term_lsb)
+        var = replaceUndefined(tree.var, termname, term_msb, term_lsb)
         return DFPointer(var, ptr)
     if isinstance(tree, DFConcat):
         nextnodes = []
         for n in tree.nextnodes:
-            nextnodes.append(replaceUndefined(n, termname))
+            nextnodes.append(replaceUndefined(n, termname, term_msb, term_lsb))
         return DFConcat(tuple(nextnodes))
     raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index d63e763..8a8bcb2 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -783,13 +783,17 @@ class FrameTable(object):
         self.dict[scope].setBlockingAssign(dst, bind)
 
     def getBlockingAssign(self, dst, scope):
+        ret = ()
         p = scope
         while self.dict[p].isAlways():
-            ret = self.dict[p].getBlockingAssign(dst)
-            if ret:
-                return ret
+            for bind in self.dict[p].getBlockingAssign(dst):
+                if not any(r.msb == bind.msb and r.lsb == bind.lsb and r.ptr == bind.ptr
+                           for r in ret):
+                    ret += (bind,)
+            if any(r.msb is None and r.ptr is None for r in ret):
+                break
             p = self.dict[p].getPrevious()
-        return ()
+        return ret
 
     def addNonblockingAssign(self, dst, bind):
         self.dict[self.current].addNonblockingAssign(dst, bind)
-- 
2.43.0


From 9b000a4a36aee35feaa27112d142eb34070c27fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 42/88] fix: select the part of a concatenated assignment
 relative to the declared range

---
 pyverilog/dataflow/bindvisitor.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 0cdbee4..dd66065 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1326,6 +1326,24 @@ class BindVisitor(NodeVisitor):
 
         return tuple(ret)
 
+    def selectPart(self, tree, msb, lsb):
+        """the bits msb to lsb, counted from 0, of the value of tree"""
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode,
+                            self.selectPart(tree.truenode, msb, lsb),
+                            self.selectPart(tree.falsenode, msb, lsb))
+        if tree is None:
+            return None
+        term = tree
+        if isinstance(tree, DFPointer) and isinstance(tree.var, DFTerminal):
+            term = tree.var if self.getTermDims(tree.var.name) is not None else None
+        if isinstance(term, DFTerminal):
+            term_lsb = self.getTermWidth(term.name)[1]
+            if self.optimize(term_lsb) != DFEvalValue(0):
+                msb = reorder.reorder(DFOperator((msb, term_lsb), 'Plus'))
+                lsb = reorder.reorder(DFOperator((lsb, term_lsb), 'Plus'))
+        return DFPartselect(tree, msb, lsb)
+
     def getDsts(self, left, scope):
         if isinstance(left, Lvalue):
             return self.getDsts(left.var, scope)
@@ -1423,7 +1441,7 @@ class BindVisitor(NodeVisitor):
                              part_msb, part_lsb, alwaysinfo):
         tree = raw_tree
         if len(dst) > 1:
-            tree = reorder.reorder(DFPartselect(raw_tree, part_msb, part_lsb))
+            tree = reorder.reorder(self.selectPart(raw_tree, part_msb, part_lsb))
         bind = Bind(tree, name, msb, lsb, ptr, alwaysinfo)
         self.frames.addNonblockingAssign(name, bind)
 
@@ -1449,7 +1467,7 @@ class BindVisitor(NodeVisitor):
             tree = raw_tree
             if len(renamed_dst) > 1:
                 tree = reorder.reorder(
-                    DFPartselect(tree, part_msb, part_lsb))
+                    self.selectPart(tree, part_msb, part_lsb))
             bind = Bind(tree, name, msb, lsb, ptr)
             self.dataflow.addBind(name, bind)
 
@@ -1481,7 +1499,7 @@ class BindVisitor(NodeVisitor):
 
         if num_dst > 1:
             raw_tree = reorder.reorder(
-                DFPartselect(raw_tree, part_msb, part_lsb))
+                self.selectPart(raw_tree, part_msb, part_lsb))
 
         current_bindlist = self.getBindlist(name)
         current_tree = None
-- 
2.43.0


From 0714add5235c27c24e0887e8b4ae5ec3bb1f12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 43/88] fix: widths of one-bit operators, shifts and variable
 part selects in the optimizer

---
 pyverilog/dataflow/optimizer.py | 47 ++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b348416..d613dcf 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -19,7 +19,9 @@ from pyverilog.dataflow.dataflow import *
 
 class VerilogOptimizer(object):
     default_width = 32
-    compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    bool_ops = compare_ops + ('Land', 'Lor', 'Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
+    shift_ops = ('Sll', 'Srl', 'Sla', 'Sra', 'Power')
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
@@ -179,6 +181,12 @@ class VerilogOptimizer(object):
             if n.width > width:
                 width = n.width
         rslt = self._evalOperator(operator, tuple(valuelist), width)
+        if rslt is None:
+            return None
+        if operator in self.bool_ops:
+            width = 1
+        elif operator in self.shift_ops:
+            width = nextnodes[0].width
         return DFEvalValue(rslt, width)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
@@ -310,15 +318,12 @@ class VerilogOptimizer(object):
             return max(truewidth, falsewidth)
 
         if isinstance(node, DFPartselect):
-            msb = self.optimizeConstant(node.msb).value
-            lsb = self.optimizeConstant(node.lsb).value
-            width = abs(msb - lsb) + 1
-            return width
+            return self.getSelectWidth(node.msb, node.lsb)
         if isinstance(node, DFOperator):
-            if node.operator in self.compare_ops:
-                return 1
-            if node.operator == 'Land' or node.operator == 'Lor':
+            if node.operator in self.bool_ops:
                 return 1
+            if node.operator in self.shift_ops:
+                return self.getWidth(node.nextnodes[0])
             maxwidth = 0
             for n in node.nextnodes:
                 width = self.getWidth(n)
@@ -341,10 +346,32 @@ class VerilogOptimizer(object):
                 width = abs(msb - lsb) + 1
                 return width
             return 1
-        if isinstance(tree, DFSyscall):
+        if isinstance(node, DFSyscall):
             return self.default_width
 
-        raise FormatError('Illegal Pointer in getWidth()')
+        raise verror.FormatError('Illegal Pointer in getWidth()')
+
+    def getSelectWidth(self, msb, lsb):
+        if msb == lsb:
+            return 1
+        # the positions may depend on signals, but not their distance
+        diff = {}
+        const = self._addLinear(self.optimizeConstant(msb), 1, diff)
+        const += self._addLinear(self.optimizeConstant(lsb), -1, diff)
+        if any(diff.values()):
+            raise verror.FormatError('Width of part select is not constant.')
+        return abs(const) + 1
+
+    def _addLinear(self, tree, sign, coefs):
+        if isinstance(tree, DFEvalValue):
+            return sign * tree.value
+        if isinstance(tree, DFOperator) and tree.operator in ('Plus', 'Minus'):
+            left, right = tree.nextnodes
+            right_sign = sign if tree.operator == 'Plus' else -sign
+            return (self._addLinear(left, sign, coefs) +
+                    self._addLinear(right, right_sign, coefs))
+        coefs[tree] = coefs.get(tree, 0) + sign
+        return 0
 
     def evalConcat(self, nextnodes):
         concatval = 0
-- 
2.43.0


From 1a0fad4938293795d681bfc56c7aa1071540ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 44/88] fix: name the module of the errors the dataflow passes
 raise

---
 pyverilog/dataflow/merge.py     | 2 +-
 pyverilog/dataflow/optimizer.py | 6 +++---
 pyverilog/dataflow/reorder.py   | 7 ++++---
 pyverilog/dataflow/replace.py   | 3 ++-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c3216aa..e748144 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -463,7 +463,7 @@ class VerilogDataflowMerge(object):
                 msb = self.optimizer.optimizeConstant(term.msb)
                 lsb = self.optimizer.optimizeConstant(term.lsb)
             elif not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
-                raise FormatError('MSB and LSB should be constant.')
+                raise verror.FormatError('MSB and LSB should be constant.')
 
             if ptr is None or isinstance(ptr, DFEvalValue):
                 ptrval = None if ptr is None else ptr.value
diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index d613dcf..a164d4b 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -83,7 +83,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFHighImpedance):
             return tree
         if isinstance(tree, DFDelay):
-            raise FormatError('Can not evaluate and optimize a DFDelay')
+            raise verror.FormatError('Can not evaluate and optimize a DFDelay')
             # return tree
 
         if isinstance(tree, DFIntConst):
@@ -384,7 +384,7 @@ class VerilogOptimizer(object):
 
     def isCondTrue(self, cond):
         if not isinstance(cond, DFEvalValue):
-            raise FormatError('Can not evaluate the branch condition.')
+            raise verror.FormatError('Can not evaluate the branch condition.')
         if cond.value == 0:
             return False
         return True
@@ -464,7 +464,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFSyscall):
             return DFSyscall(tree.syscall, tuple([self.optimizeHierarchy(n) for n in tree.nextnodes]))
 
-        raise FormatError('Can not merge due to unrecognized type of tree')
+        raise verror.FormatError('Can not merge due to unrecognized type of tree')
 
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index f948af2..7a891d3 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -12,6 +12,7 @@ import sys
 import os
 import copy
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -60,7 +61,7 @@ def reorder(tree):
         resolved_lsb = reorder(tree.lsb)
         resolved_var = reorder(tree.var)
         if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
-            raise FormatError('MSB and LSB should not be DFBranch')
+            raise verror.FormatError('MSB and LSB should not be DFBranch')
         if isinstance(resolved_var, DFBranch):
             return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
@@ -69,7 +70,7 @@ def reorder(tree):
         resolved_ptr = reorder(tree.ptr)
         resolved_var = reorder(tree.var)
         if isinstance(resolved_ptr, DFBranch):
-            # raise FormatError('PTR should not be DFBranch')n
+            # raise verror.FormatError('PTR should not be DFBranch')n
             return DFBranch(resolved_ptr.condnode,
                             reorder(DFPointer(resolved_var, resolved_ptr.truenode)),
                             reorder(DFPointer(resolved_var, resolved_ptr.falsenode)))
@@ -80,7 +81,7 @@ def reorder(tree):
     if isinstance(tree, DFDelay):
         return DFDelay(reorder(tree.nextnode))
 
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
 
 ############################################################################
 
diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index 04b83ce..cb13f4b 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -51,4 +52,4 @@ def replaceUndefined(tree, termname, term_msb=None, term_lsb=None):
         for n in tree.nextnodes:
             nextnodes.append(replaceUndefined(n, termname, term_msb, term_lsb))
         return DFConcat(tuple(nextnodes))
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
-- 
2.43.0


From 5b7cec29dd382fe844287efbdb565c08a7395c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 45/88] fix: constant operators: width of xnor, exact and
 truncating division, division by zero, arithmetic left shift

---
 pyverilog/dataflow/optimizer.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index a164d4b..b63f564 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -178,7 +178,7 @@ class VerilogOptimizer(object):
             if not isinstance(n, DFEvalValue):
                 return None
             valuelist.append(n.value)
-            if n.width > width:
+            if n.width is not None and n.width > width:
                 width = n.width
         rslt = self._evalOperator(operator, tuple(valuelist), width)
         if rslt is None:
@@ -235,21 +235,32 @@ class VerilogOptimizer(object):
                     rslt = 1 if rslt == 0 else 0
             return rslt
         if operator == 'Power':
+            if valuelist[1] < 0:
+                return None
             return valuelist[0] ** valuelist[1]
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
         if operator == 'Divide':
-            value = valuelist[0] / valuelist[1]
+            if valuelist[1] == 0:
+                return None
             if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
-                return int(value)
-            return value
+                # truncated toward zero
+                value = abs(valuelist[0]) // abs(valuelist[1])
+                return value if (valuelist[0] < 0) == (valuelist[1] < 0) else -value
+            return valuelist[0] / valuelist[1]
         if operator == 'Mod':
-            return valuelist[0] % valuelist[1]
+            if valuelist[1] == 0:
+                return None
+            # takes the sign of the first operand
+            value = abs(valuelist[0]) % abs(valuelist[1])
+            return value if valuelist[0] >= 0 else -value
         if operator == 'Plus':
             return valuelist[0] + valuelist[1]
         if operator == 'Minus':
             return valuelist[0] - valuelist[1]
-        if operator == 'Sll':
+        if operator in ('Sll', 'Srl', 'Sla', 'Sra') and valuelist[1] < 0:
+            return None
+        if operator == 'Sll' or operator == 'Sla':
             return valuelist[0] << valuelist[1]
         if operator == 'Srl':
             return valuelist[0] >> valuelist[1]
@@ -277,7 +288,7 @@ class VerilogOptimizer(object):
         if operator == 'Xor':
             return valuelist[0] ^ valuelist[1]
         if operator == 'Xnor':
-            return ~(valuelist[0] ^ valuelist[1])
+            return ~(valuelist[0] ^ valuelist[1]) & ((1 << width) - 1)
         if operator == 'Or':
             return valuelist[0] | valuelist[1]
         if operator == 'Land':
@@ -379,7 +390,7 @@ class VerilogOptimizer(object):
         for node in nextnodes:
             width = self.getWidth(node)
             sum_width += width
-            concatval = (concatval << width) | node.value
+            concatval = (concatval << width) | (node.value & ((1 << width) - 1))
         return DFEvalValue(concatval, sum_width)
 
     def isCondTrue(self, cond):
-- 
2.43.0


From facc06a6d24a0776d0916dfbe113968e04030db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 46/88] fix: width and value of signed literals and literals
 with unknown digits

---
 pyverilog/dataflow/dataflow.py  | 46 ++++++++++-----------------------
 pyverilog/dataflow/optimizer.py |  2 ++
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index da85be2..b140968 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -151,40 +151,22 @@ class DFIntConst(DFConstant):
         return ret
 
     def eval(self):
-        targ = self.value.replace('_', '')
-        signed = False
-        match = re.search(r'[Ss](.+)', targ)
-        if match is not None:
-            signed = True
-        match = re.search(r'[Hh](.+)', targ)
-        if match is not None:
-            return int(match.group(1), 16)
-        match = re.search(r'[Dd](.+)', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'[Oo](.+)', targ)
-        if match is not None:
-            return int(match.group(1), 8)
-        match = re.search(r'[Bb](.+)', targ)
-        if match is not None:
-            return int(match.group(1), 2)
-        return int(targ, 10)
+        base, digits = self._split()[1:]
+        return int(digits, base)
 
     def width(self):
-        targ = self.value.replace('_', '')
-        match = re.search(r'(.+)\'[Hh].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Dd].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Oo].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Bb].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        return 32
+        width = self._split()[0]
+        if width == '':
+            return 32
+        return int(width, 10)
+
+    def _split(self):
+        targ = self.value.replace('_', '').replace(' ', '')
+        match = re.match(r"(.*)'[Ss]?([HhDdOoBb])(.+)", targ)
+        if match is None:
+            return '', 10, targ
+        base = {'h': 16, 'd': 10, 'o': 8, 'b': 2}[match.group(2).lower()]
+        return match.group(1), base, match.group(3)
 
 
 class DFFloatConst(DFConstant):
diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b63f564..ef417e8 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -91,6 +91,8 @@ class VerilogOptimizer(object):
                 return DFUndefined(tree.width())
             if 'X' in tree.value or 'Z' in tree.value:
                 return DFUndefined(tree.width())
+            if '?' in tree.value:
+                return DFUndefined(tree.width())
             return DFEvalValue(tree.eval(), tree.width())
         if isinstance(tree, DFFloatConst):
             return DFEvalValue(tree.eval(), self.default_width, isfloat=True)
-- 
2.43.0


From 9d17c169b06ae992810cc59fa4edd44c2de8dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 47/88] fix: evaluate selects of constants relative to the
 declared range

---
 pyverilog/dataflow/optimizer.py | 38 ++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index ef417e8..56bd6cc 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -139,9 +139,12 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
-            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(msb, DFEvalValue):
-                evalcc = self.evalPartselect(var, msb, lsb)
+            offset = self.getOffset(tree.var)
+            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                evalcc = self.evalPartselect(var, msb, lsb, offset)
                 return evalcc
+            if isinstance(var, DFEvalValue) and offset != 0:
+                var = tree.var
             return DFPartselect(var, msb, lsb)
 
         if isinstance(tree, DFPointer):
@@ -152,9 +155,12 @@ class VerilogOptimizer(object):
             ptr = self.optimizeConstant(tree.ptr)
             if term.dims is not None:
                 return DFPointer(var, ptr)
+            offset = self.getOffset(tree.var)
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
-                evalcc = self.evalPointer(var, ptr)
+                evalcc = self.evalPointer(var, ptr, offset)
                 return evalcc
+            if isinstance(var, DFEvalValue) and offset != 0:
+                var = tree.var
             return DFPointer(var, ptr)
 
         if isinstance(tree, DFSyscall):
@@ -402,16 +408,28 @@ class VerilogOptimizer(object):
             return False
         return True
 
-    def evalPartselect(self, var, msb, lsb):
+    def getOffset(self, var):
+        """position that selects the lowest bit of var"""
+        if isinstance(var, DFPointer):
+            var = var.var
+            if not isinstance(var, DFTerminal) or self.getTerm(var.name).dims is None:
+                return 0
+        if isinstance(var, DFTerminal):
+            lsb = self.optimizeConstant(self.getTerm(var.name).lsb)
+            if isinstance(lsb, DFEvalValue):
+                return lsb.value
+        return 0
+
+    def evalPartselect(self, var, msb, lsb, offset=0):
         width = msb.value - lsb.value + 1
-        partval = var.value >> lsb.value
-        if partval >= 2 ** width:
-            partval = partval % (2 ** width)
+        low = lsb.value - offset
+        if low < 0 or width <= 0:
+            return DFUndefined(max(width, 1))
+        partval = (var.value >> low) & ((1 << width) - 1)
         return DFEvalValue(partval, width)
 
-    def evalPointer(self, var, ptr):
-        ptrval = (var >> ptr) & 0x1
-        return DFEvalValue(ptrval, 1)
+    def evalPointer(self, var, ptr, offset=0):
+        return self.evalPartselect(var, ptr, ptr, offset)
 
     def optimizeHierarchy(self, tree):
         if tree is None:
-- 
2.43.0


From 7c898d24e5bea8dd7bb6995c78649df02e98d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 48/88] fix: parts of concatenations in the optimizer

---
 pyverilog/dataflow/optimizer.py | 96 ++++++++++-----------------------
 1 file changed, 29 insertions(+), 67 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 56bd6cc..51eadcd 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -475,7 +475,9 @@ class VerilogOptimizer(object):
             var = self.optimizeHierarchy(tree.var)
             if isinstance(var, DFConcat) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 return self.takePart(var.nextnodes, msb, lsb)
-            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue) and lsb.value == 0 and self.getWidth(var) == (msb.value + 1):
+            if (isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue) and
+                lsb.value == self.getOffset(var) and
+                    self.getWidth(var) == (msb.value - lsb.value + 1)):
                 return var
             return DFPartselect(var, msb, lsb)
         if isinstance(tree, DFPointer):
@@ -487,10 +489,11 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFConcat):
             nextnodes = []
             for n in tree.nextnodes:
+                n = self.optimizeHierarchy(n)
                 if isinstance(n, DFConcat):
                     nextnodes.extend(n.nextnodes)
                     continue
-                nextnodes.append(self.optimizeHierarchy(n))
+                nextnodes.append(n)
             return self.mergeConcat(DFConcat(tuple(nextnodes)))
         if isinstance(tree, DFSyscall):
             return DFSyscall(tree.syscall, tuple([self.optimizeHierarchy(n) for n in tree.nextnodes]))
@@ -501,81 +504,35 @@ class VerilogOptimizer(object):
         return self.takePart(nextnodes, ptr, ptr)
 
     def takePart(self, nextnodes, msb, lsb):
-        widlist = []
-        for n in reversed(nextnodes):  # from LSB
-            widlist.append(self.getWidth(n))
         lsbcut = min(msb.value, lsb.value)
         msbcut = max(msb.value, lsb.value)
-        cutwidth = msbcut - lsbcut + 1
 
-        widsum = 0
-        widpos = 1
-        widoffset = 0
         usednodes = []
-        lsb = -1
-        msb = -1
-        lsboffset = -1
-        msboffset = -1
-        use = False
-        for w in widlist:  # from LSB
-            if lsbcut >= widoffset and lsbcut < widoffset + w:
-                lsb = widoffset
-                lsboffset = lsbcut - lsb
-                use = True
-            if use:
-                widsum += w
-                usednodes.append(self.optimizeConstant(nextnodes[-widpos]))
-            if msbcut >= widoffset and msbcut < widoffset + w:
-                msb = widoffset + w - 1
-                msboffset = msb - msbcut
-                break
-            widpos += 1
-            widoffset += w
-
-        usednodes.reverse()
-
-        if len(usednodes) == 0:
-            return DFUndefined(cutwidth)
-        if msboffset < 0:
-            if lsboffset == 0:
-                return DFConcat((DFUndefined(cutwidth - widsum),) + tuple(usednodes))
-            if len(usednodes) == 1:
-                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-        if lsboffset == 0 and msboffset == 0:
-            if len(usednodes) == 1:
-                return usednodes[0]
-            return DFConcat(tuple(usednodes))
+        low = 0
+        for n in reversed(nextnodes):  # from LSB
+            high = low + self.getWidth(n) - 1
+            part_msb = min(msbcut, high)
+            part_lsb = max(lsbcut, low)
+            if part_msb >= part_lsb:
+                node = n
+                if part_lsb > low or part_msb < high:
+                    offset = self.getOffset(n) - low
+                    node = DFPartselect(n, DFEvalValue(part_msb + offset),
+                                        DFEvalValue(part_lsb + offset))
+                usednodes.append(self.optimizeConstant(node))
+            low = high + 1
+        if msbcut >= low:
+            usednodes.append(DFUndefined(msbcut - max(lsbcut, low) + 1))
 
         if len(usednodes) == 1:
-            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
-
-        ret_usednodes = []
-        usednodes_cnt = 0
-        for node in reversed(usednodes):  # from LSB
-            if usednodes_cnt == 0 and lsboffset > 0:
-                lsbval = lsboffset
-                msbval = widlist[usednodes_cnt] - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            elif usednodes_cnt == len(usednodes) - 1 and msboffset > 0:
-                lsbval = 0
-                msbval = widlist[usednodes_cnt] - msboffset - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            else:
-                ret_usednodes.append(self.optimizeConstant(node))
-            usednodes_cnt += 1
-        ret_usednodes.reverse()
-        return DFPartselect(DFConcat(tuple(ret_usednodes)), DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+            return usednodes[0]
+        usednodes.reverse()
+        return DFConcat(tuple(usednodes))
 
     def _isPowerOf2(self, value):
         if value <= 0:
             return False
-        p = math.log(value, 2)
-        if p % 1.0 == 0:
-            return True
-        return False
+        return value & (value - 1) == 0
 
     def replaceOperator(self, node):
         if not isinstance(node, DFOperator):
@@ -655,6 +612,11 @@ class VerilogOptimizer(object):
                 pass
             elif last_node.var.name != n.var.name:
                 pass
+            elif not (isinstance(last_node.msb, DFEvalValue) and
+                      isinstance(last_node.lsb, DFEvalValue) and
+                      isinstance(n.msb, DFEvalValue) and
+                      isinstance(n.lsb, DFEvalValue)):
+                pass
             elif last_node.lsb.value == n.msb.value + 1:
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-- 
2.43.0


From 3d1ce5cb169e695097da48b57f23798a1751596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 49/88] fix: simplifications in the optimizer keep the width
 and truth value of what they replace

---
 pyverilog/dataflow/optimizer.py | 75 ++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 51eadcd..5550443 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -10,7 +10,6 @@ from __future__ import absolute_import
 from __future__ import print_function
 import sys
 import os
-import math
 
 import pyverilog.utils.verror as verror
 import pyverilog.utils.signaltype as signaltype
@@ -414,7 +413,7 @@ class VerilogOptimizer(object):
             var = var.var
             if not isinstance(var, DFTerminal) or self.getTerm(var.name).dims is None:
                 return 0
-        if isinstance(var, DFTerminal):
+        if isinstance(var, DFTerminal) and self.hasTerm(var.name):
             lsb = self.optimizeConstant(self.getTerm(var.name).lsb)
             if isinstance(lsb, DFEvalValue):
                 return lsb.value
@@ -540,20 +539,26 @@ class VerilogOptimizer(object):
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
-             self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sll')
+             self._isPowerOf2(node.nextnodes[1].value)) and
+                self._keepsWidth(node, 0)):
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[0], DFEvalValue) and
              isinstance(node.nextnodes[0].value, int) and
-             self._isPowerOf2(node.nextnodes[0].value))):
-            return DFOperator((node.nextnodes[1], DFEvalValue(int(math.log(node.nextnodes[0].value, 2)))), 'Sll')
+             self._isPowerOf2(node.nextnodes[0].value)) and
+                self._keepsWidth(node, 1)):
+            return DFOperator((node.nextnodes[1], DFEvalValue(node.nextnodes[0].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Divide'
             and (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
-                 self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sra')
+                 self._isPowerOf2(node.nextnodes[1].value)) and
+                self._keepsWidth(node, 0)):
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sra')
         return node
 
+    def _keepsWidth(self, node, pos):
+        return self.getWidth(node.nextnodes[pos]) == self.getWidth(node)
+
     def mergeConcat(self, concatnode):
         t = concatnode
         if isinstance(t, DFConcat):
@@ -631,6 +636,13 @@ class VerilogOptimizer(object):
             return ret_nodes[0]
         return DFConcat(tuple(ret_nodes))
 
+    def isAligned(self, branch):
+        if branch.truenode is None and branch.falsenode is None:
+            return False
+        if branch.truenode is None or branch.falsenode is None:
+            return True
+        return self.getWidth(branch.truenode) == self.getWidth(branch.falsenode)
+
     def mergeConcat_branch(self, concatnode):
         nodelist = []
         last_node = None
@@ -641,7 +653,7 @@ class VerilogOptimizer(object):
                 pass
             elif not isinstance(n, DFBranch):
                 pass
-            elif last_node.condnode == n.condnode:
+            elif last_node.condnode == n.condnode and self.isAligned(last_node) and self.isAligned(n):
                 truenode_list = (last_node.truenode, n.truenode)
                 falsenode_list = (last_node.falsenode, n.falsenode)
                 new_truenode_list = []
@@ -685,10 +697,8 @@ class VerilogOptimizer(object):
             return node.nextnodes[0]
         if node.operator == 'Or':
             return node.nextnodes[0]
-        if node.operator == 'Land':
-            return node.nextnodes[0]
-        if node.operator == 'Lor':
-            return node.nextnodes[0]
+        if node.operator == 'Land' or node.operator == 'Lor':
+            return node.nextnodes[0] if self.getWidth(node.nextnodes[0]) == 1 else node
         if node.operator == 'LessThan':
             return DFEvalValue(0, 1)  # value, width
         if node.operator == 'GreaterThan':
@@ -741,9 +751,11 @@ class VerilogOptimizer(object):
                     return node
             return node
         if node.operator == 'Or':
-            if isinstance(left, DFEvalValue) and left.value == 0:
+            if isinstance(left, DFEvalValue) and left.value == 0\
+                    and self.getWidth(right) == self.getWidth(node):
                 return right
-            if isinstance(right, DFEvalValue) and right.value == 0:
+            if isinstance(right, DFEvalValue) and right.value == 0\
+                    and self.getWidth(left) == self.getWidth(node):
                 return left
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
@@ -769,19 +781,19 @@ class VerilogOptimizer(object):
                 return DFEvalValue(0, 1)
             if isinstance(right, DFEvalValue) and right.value == 0:
                 return DFEvalValue(0, 1)
-            if isinstance(left, DFEvalValue) and left.value > 0:
+            if isinstance(left, DFEvalValue) and left.value != 0 and self.getWidth(right) == 1:
                 return right
-            if isinstance(right, DFEvalValue) and right.value > 0:
+            if isinstance(right, DFEvalValue) and right.value != 0 and self.getWidth(left) == 1:
                 return left
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-                if self.getWidth(node) == 1:
+                if self.getWidth(left) == 1 and self.getWidth(right) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
             if isinstance(right, DFOperator) and right.operator == 'Unot'\
                     and right.nextnodes[0] == left:
-                if self.getWidth(node) == 1:
+                if self.getWidth(left) == 1 and self.getWidth(right) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
@@ -853,13 +865,13 @@ class VerilogOptimizer(object):
                 return left
             return node
         if node.operator == 'Lor':
-            if isinstance(left, DFEvalValue) and left.value == 0:
+            if isinstance(left, DFEvalValue) and left.value == 0 and self.getWidth(right) == 1:
                 return right
-            if isinstance(right, DFEvalValue) and right.value == 0:
+            if isinstance(right, DFEvalValue) and right.value == 0 and self.getWidth(left) == 1:
                 return left
-            if isinstance(left, DFEvalValue) and left.value > 0:
+            if isinstance(left, DFEvalValue) and left.value != 0:
                 return DFEvalValue(1, 1)
-            if isinstance(right, DFEvalValue) and right.value > 0:
+            if isinstance(right, DFEvalValue) and right.value != 0:
                 return DFEvalValue(1, 1)
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
@@ -878,28 +890,33 @@ class VerilogOptimizer(object):
                     and isinstance(left.nextnodes[0], DFOperator) and left.nextnodes[0].operator == 'Ulnot'\
                     and left.nextnodes[0].nextnodes[0] == right.nextnodes[0]\
                     and left.nextnodes[1] == right.nextnodes[1]:
-                return left.nextnodes[1]
+                return self.toBool(left.nextnodes[1])
             if isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left.nextnodes[1], DFOperator) and left.nextnodes[1].operator == 'Ulnot'\
                     and left.nextnodes[1].nextnodes[0] == right.nextnodes[0]\
                     and left.nextnodes[0] == right.nextnodes[1]:
-                return left.nextnodes[0]
+                return self.toBool(left.nextnodes[0])
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[0], DFOperator) and right.nextnodes[0].operator == 'Ulnot'\
                     and right.nextnodes[0].nextnodes[0] == left.nextnodes[0]\
                     and right.nextnodes[1] == left.nextnodes[1]:
-                return right.nextnodes[1]
+                return self.toBool(right.nextnodes[1])
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[1], DFOperator) and right.nextnodes[1].operator == 'Ulnot'\
                     and right.nextnodes[1].nextnodes[0] == left.nextnodes[0]\
                     and right.nextnodes[0] == left.nextnodes[1]:
-                return right.nextnodes[0]
+                return self.toBool(right.nextnodes[0])
             return node
         return node
 
+    def toBool(self, node):
+        if self.getWidth(node) == 1:
+            return node
+        return DFOperator((node,), 'Uor')
+
     def mergeLandLor(self, node):
         return self.mergeLor(node)
 
@@ -909,7 +926,7 @@ class VerilogOptimizer(object):
             retnode = None
             for r in ret:
                 if retnode is None:
-                    retnode = r
+                    retnode = r if len(ret) > 1 else self.toBool(r)
                 else:
                     retnode = DFOperator((retnode, r), 'Land')
             return retnode
@@ -950,7 +967,7 @@ class VerilogOptimizer(object):
             retnode = None
             for r in ret:
                 if retnode is None:
-                    retnode = r
+                    retnode = r if len(ret) > 1 else self.toBool(r)
                 else:
                     retnode = DFOperator((retnode, r), 'Lor')
             return retnode
-- 
2.43.0


From 222a2b180a35aa6150e362bcf3bb8726c760a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 50/88] fix: keep the selected bits when the optimizer
 simplifies a selected value

---
 pyverilog/dataflow/optimizer.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 5550443..969c58b 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -142,8 +142,7 @@ class VerilogOptimizer(object):
             if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 evalcc = self.evalPartselect(var, msb, lsb, offset)
                 return evalcc
-            if isinstance(var, DFEvalValue) and offset != 0:
-                var = tree.var
+            var, msb, lsb = self.alignSelect(tree.var, var, msb, lsb)
             return DFPartselect(var, msb, lsb)
 
         if isinstance(tree, DFPointer):
@@ -158,8 +157,7 @@ class VerilogOptimizer(object):
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
                 evalcc = self.evalPointer(var, ptr, offset)
                 return evalcc
-            if isinstance(var, DFEvalValue) and offset != 0:
-                var = tree.var
+            var, ptr, _ = self.alignSelect(tree.var, var, ptr, ptr)
             return DFPointer(var, ptr)
 
         if isinstance(tree, DFSyscall):
@@ -419,6 +417,16 @@ class VerilogOptimizer(object):
                 return lsb.value
         return 0
 
+    def alignSelect(self, old_var, var, msb, lsb):
+        """positions in old_var as positions in var, what it was simplified to"""
+        shift = self.getOffset(var) - self.getOffset(old_var)
+        if shift == 0:
+            return var, msb, lsb
+        if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+            return (var, DFEvalValue(msb.value + shift, msb.width),
+                    DFEvalValue(lsb.value + shift, lsb.width))
+        return old_var, msb, lsb
+
     def evalPartselect(self, var, msb, lsb, offset=0):
         width = msb.value - lsb.value + 1
         low = lsb.value - offset
@@ -474,6 +482,7 @@ class VerilogOptimizer(object):
             var = self.optimizeHierarchy(tree.var)
             if isinstance(var, DFConcat) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 return self.takePart(var.nextnodes, msb, lsb)
+            var, msb, lsb = self.alignSelect(tree.var, var, msb, lsb)
             if (isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue) and
                 lsb.value == self.getOffset(var) and
                     self.getWidth(var) == (msb.value - lsb.value + 1)):
@@ -484,6 +493,7 @@ class VerilogOptimizer(object):
             var = self.optimizeHierarchy(tree.var)
             if isinstance(var, DFConcat) and isinstance(ptr, DFEvalValue):
                 return self.takePoint(var.nextnodes, ptr)
+            var, ptr, _ = self.alignSelect(tree.var, var, ptr, ptr)
             return DFPointer(var, ptr)
         if isinstance(tree, DFConcat):
             nextnodes = []
-- 
2.43.0


From 8906c907e7653a5669632c5f2f666b0c2d8424b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 51/88] fix: bits read back from a partly assigned signal whose
 range does not start at 0

---
 pyverilog/dataflow/bindvisitor.py | 34 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index dd66065..a5fb5dd 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1243,10 +1243,8 @@ class BindVisitor(NodeVisitor):
             resolved_msb = self.resolveBlockingAssign(tree.msb, scope)
             resolved_lsb = self.resolveBlockingAssign(tree.lsb, scope)
             resolved_var = self.resolveBlockingAssign(tree.var, scope)
-            if isinstance(resolved_var, DFBranch):
-                return reorder.insertPartselect(resolved_var,
-                                                resolved_msb, resolved_lsb)
-            return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
+            return self.selectFrom(resolved_var, tree.var,
+                                   resolved_msb, resolved_lsb, DFPartselect)
 
         if isinstance(tree, DFPointer):
             resolved_ptr = self.resolveBlockingAssign(tree.ptr, scope)
@@ -1263,13 +1261,30 @@ class BindVisitor(NodeVisitor):
                        "Overwrting Blocking Assignment with Reg Array is not supported"))
                 return new_tree
             resolved_var = self.resolveBlockingAssign(tree.var, scope)
-            if isinstance(resolved_var, DFBranch):
-                return reorder.insertPointer(resolved_var, resolved_ptr)
-            return DFPointer(resolved_var, resolved_ptr)
+            return self.selectFrom(resolved_var, tree.var,
+                                   resolved_ptr, resolved_ptr, DFPointer)
 
         raise verror.FormatError("unsupported DFNode type: %s %s" %
                                  (str(type(tree)), str(tree)))
 
+    def selectFrom(self, tree, var, msb, lsb, nodetype):
+        """what msb and lsb select in var, selected in tree, the value of var"""
+        if tree is None:
+            return None
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode,
+                            self.selectFrom(tree.truenode, var, msb, lsb, nodetype),
+                            self.selectFrom(tree.falsenode, var, msb, lsb, nodetype))
+        shift = self.optimizer.getOffset(tree) - self.optimizer.getOffset(var)
+        if shift != 0:
+            operator = 'Plus' if shift > 0 else 'Minus'
+            width = DFIntConst(str(abs(shift)))
+            msb = reorder.reorder(DFOperator((msb, width), operator))
+            lsb = reorder.reorder(DFOperator((lsb, width), operator))
+        if nodetype is DFPointer:
+            return DFPointer(tree, msb)
+        return DFPartselect(tree, msb, lsb)
+
     def getFitTree(self, bindlist, msb, lsb):
         optimized_msb = self.optimize(msb)
         optimized_lsb = self.optimize(lsb)
@@ -1339,7 +1354,7 @@ class BindVisitor(NodeVisitor):
             term = tree.var if self.getTermDims(tree.var.name) is not None else None
         if isinstance(term, DFTerminal):
             term_lsb = self.getTermWidth(term.name)[1]
-            if self.optimize(term_lsb) != DFEvalValue(0):
+            if self.optimizer.getOffset(term) != 0:
                 msb = reorder.reorder(DFOperator((msb, term_lsb), 'Plus'))
                 lsb = reorder.reorder(DFOperator((lsb, term_lsb), 'Plus'))
         return DFPartselect(tree, msb, lsb)
@@ -1474,8 +1489,7 @@ class BindVisitor(NodeVisitor):
             value = self.optimize(tree)
             if isinstance(value, DFEvalValue):
                 self.setConstant(name, value)
-            msb, lsb = self.getTermWidth(name)
-            self.setConstantTerm(name, Term(name, set(['Rename']), msb, lsb))
+            self.setConstantTerm(name, self.getTerm(name))
 
     def setRenamedFlow(self, dst, renamed_dst, condlist, flowlist,
                        scope, alwaysinfo=None):
-- 
2.43.0


From 3541b6692fa39ad5e7f6a22d42909420c1ca2a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 52/88] fix: constants assigned in one branch, part or block
 are not constants elsewhere

---
 pyverilog/dataflow/bindvisitor.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index a5fb5dd..9f5cb43 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -228,7 +228,9 @@ class BindVisitor(NodeVisitor):
         self.frames.setAlwaysInfo(clock_name, clock_edge, clock_bit,
                                   reset_name, reset_edge, reset_bit, senslist)
 
+        constants = self.saveConstants()
         self.generic_visit(node)
+        self.restoreConstants(constants)
         self.frames.setCurrent(current)
 
     def _get_signal_name(self, n):
@@ -308,8 +310,12 @@ class BindVisitor(NodeVisitor):
                         current + ScopeLabel(self._toELSE(label), 'if'), current)
             return
 
+        before = self.saveConstants()
         label = self._if_true(node)
+        after_true = self.saveConstants()
+        self.restoreConstants(before)
         self._if_false(node, label)
+        self.mergeConstants(after_true)
 
         current = self.frames.getCurrent()
         if node.true_statement is not None:
@@ -403,11 +409,15 @@ class BindVisitor(NodeVisitor):
 
         myframes.append(self.frames.getCurrent())
 
+        before = self.saveConstants()
         if case.statement is not None:
             self.visit(case.statement)
         self.frames.setCurrent(current)
+        after_case = self.saveConstants()
+        self.restoreConstants(before)
 
         if len(caselist) == 1:
+            self.mergeConstants(after_case)
             return
 
         label = self._toELSE(label)
@@ -425,6 +435,7 @@ class BindVisitor(NodeVisitor):
         myframes.append(current + ScopeLabel(label, 'if'))
 
         self._case(comp, caselist[1:], myframes)
+        self.mergeConstants(after_case)
 
     def visit_ForStatement(self, node):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
@@ -674,6 +685,18 @@ class BindVisitor(NodeVisitor):
     def setConstant(self, name, value):
         self.optimizer.setConstant(name, value)
 
+    def saveConstants(self):
+        return dict(self.optimizer.constlist)
+
+    def restoreConstants(self, constants):
+        self.optimizer.constlist = dict(constants)
+
+    def mergeConstants(self, constants):
+        """keep the constants on which two alternative flows agree"""
+        self.optimizer.constlist = dict(
+            (name, value) for name, value in self.optimizer.constlist.items()
+            if name in constants and constants[name] == value)
+
     def resetConstant(self, name):
         self.optimizer.resetConstant(name)
 
@@ -944,7 +967,10 @@ class BindVisitor(NodeVisitor):
 
         self.setDataflow_rename(dst, raw_tree, condlist, flowlist, lscope, alwaysinfo)
 
-        if len(dst) == 1:  # set genvar value to the constant table
+        if len(dst) > 1 or dst[0][1] is not None or dst[0][3] is not None:
+            for name in [d[0] for d in dst]:
+                self.resetConstant(name)
+        else:  # set genvar value to the constant table
             name = dst[0][0]
             if signaltype.isGenvar(self.getTermtype(name)):
                 value = self.optimize(raw_tree)
@@ -1487,7 +1513,7 @@ class BindVisitor(NodeVisitor):
             self.dataflow.addBind(name, bind)
 
             value = self.optimize(tree)
-            if isinstance(value, DFEvalValue):
+            if isinstance(value, DFEvalValue) and msb is None and ptr is None:
                 self.setConstant(name, value)
             self.setConstantTerm(name, self.getTerm(name))
 
-- 
2.43.0


From bc14544e03fd51177be406f3f4049b09eed02782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 53/88] fix: analyze casez, unique case and SystemVerilog
 always blocks like their Verilog counterparts

---
 pyverilog/dataflow/bindvisitor.py   | 15 +++++++++++++++
 pyverilog/dataflow/modulevisitor.py |  9 +++++++++
 pyverilog/dataflow/signalvisitor.py | 15 +++++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 9f5cb43..8426cc2 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -233,6 +233,15 @@ class BindVisitor(NodeVisitor):
         self.restoreConstants(constants)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def _get_signal_name(self, n):
         if isinstance(n, Identifier):
             return n.name
@@ -381,6 +390,12 @@ class BindVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist, myframes):
         if len(caselist) == 0:
             return
diff --git a/pyverilog/dataflow/modulevisitor.py b/pyverilog/dataflow/modulevisitor.py
index 3d24200..402bf8e 100644
--- a/pyverilog/dataflow/modulevisitor.py
+++ b/pyverilog/dataflow/modulevisitor.py
@@ -53,6 +53,15 @@ class ModuleVisitor(NodeVisitor):
     def visit_Always(self, node):
         pass
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_Initial(self, node):
         pass
 
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2d5251..000dda2 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -166,6 +166,15 @@ class SignalVisitor(NodeVisitor):
         self.generic_visit(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_IfStatement(self, node):
 
         if (self.frames.isGenerate()
@@ -231,6 +240,12 @@ class SignalVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist):
         if len(caselist) == 0:
             return
-- 
2.43.0


From e1814dcaa61cf1233b23548af28a3d0cf81dbd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 54/88] fix: the default item of a case statement is the last
 resort wherever it stands

---
 pyverilog/dataflow/bindvisitor.py   | 2 +-
 pyverilog/dataflow/signalvisitor.py | 2 +-
 pyverilog/dataflow/visit.py         | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 8426cc2..383f0c2 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -382,7 +382,7 @@ class BindVisitor(NodeVisitor):
             return
         start_frame = self.frames.getCurrent()
         caseframes = []
-        self._case(node.comp, node.caselist, caseframes)
+        self._case(node.comp, default_last(node.caselist), caseframes)
         self.frames.setCurrent(start_frame)
         for f in caseframes:
             self.copyBlockingAssigns(f, start_frame)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 000dda2..d140863 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -234,7 +234,7 @@ class SignalVisitor(NodeVisitor):
 
     def visit_CaseStatement(self, node):
         start_frame = self.frames.getCurrent()
-        self._case(node.comp, node.caselist)
+        self._case(node.comp, default_last(node.caselist))
         self.frames.setCurrent(start_frame)
 
     def visit_CasexStatement(self, node):
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 8a8bcb2..ea89f20 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -53,6 +53,12 @@ class NodeVisitor(object):
 
 
 # Signal/Object Management Classes
+def default_last(caselist):
+    """Wherever the default item stands, all others are tried before it."""
+    return (tuple(case for case in caselist if case.cond is not None) +
+            tuple(case for case in caselist if case.cond is None))
+
+
 class AlwaysInfo(object):
     def __init__(self, clock_name='', clock_edge=None, clock_bit=0,
                  reset_name='', reset_edge=None, reset_bit=0, senslist=()):
-- 
2.43.0


From 362959dd3884315ae5216bbe0d0ece8494b7367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 55/88] fix: compare casez items without their wildcard digits

---
 pyverilog/dataflow/bindvisitor.py   | 15 ++++--------
 pyverilog/dataflow/signalvisitor.py | 15 ++++--------
 pyverilog/dataflow/visit.py         | 37 +++++++++++++++++++++++++++++
 3 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 383f0c2..d2246ab 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -382,7 +382,7 @@ class BindVisitor(NodeVisitor):
             return
         start_frame = self.frames.getCurrent()
         caseframes = []
-        self._case(node.comp, default_last(node.caselist), caseframes)
+        self._case(node.comp, default_last(node.caselist), caseframes, wildcards_of(node))
         self.frames.setCurrent(start_frame)
         for f in caseframes:
             self.copyBlockingAssigns(f, start_frame)
@@ -396,19 +396,12 @@ class BindVisitor(NodeVisitor):
     def visit_UniqueCaseStatement(self, node):
         return self.visit_CaseStatement(node)
 
-    def _case(self, comp, caselist, myframes):
+    def _case(self, comp, caselist, myframes, wildcards):
         if len(caselist) == 0:
             return
 
         case = caselist[0]
-        cond = IntConst('1')
-        if case.cond is not None:
-            if len(case.cond) > 1:
-                cond = Eq(comp, case.cond[0])
-                for c in case.cond[1:]:
-                    cond = Lor(cond, Eq(comp, c))
-            else:
-                cond = Eq(comp, case.cond[0])
+        cond = case_condition(comp, case.cond, wildcards)
         # else: raise Exception
         label = self.labels.get(self.frames.getLabelKey('if'))
         current = self.stackNextFrame(label, 'if',
@@ -449,7 +442,7 @@ class BindVisitor(NodeVisitor):
 
         myframes.append(current + ScopeLabel(label, 'if'))
 
-        self._case(comp, caselist[1:], myframes)
+        self._case(comp, caselist[1:], myframes, wildcards)
         self.mergeConstants(after_case)
 
     def visit_ForStatement(self, node):
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index d140863..b3468b7 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -234,7 +234,7 @@ class SignalVisitor(NodeVisitor):
 
     def visit_CaseStatement(self, node):
         start_frame = self.frames.getCurrent()
-        self._case(node.comp, default_last(node.caselist))
+        self._case(node.comp, default_last(node.caselist), wildcards_of(node))
         self.frames.setCurrent(start_frame)
 
     def visit_CasexStatement(self, node):
@@ -246,18 +246,11 @@ class SignalVisitor(NodeVisitor):
     def visit_UniqueCaseStatement(self, node):
         return self.visit_CaseStatement(node)
 
-    def _case(self, comp, caselist):
+    def _case(self, comp, caselist, wildcards):
         if len(caselist) == 0:
             return
         case = caselist[0]
-        cond = IntConst('1')
-        if case.cond is not None:
-            if len(case.cond) > 1:
-                cond = Eq(comp, case.cond[0])
-                for c in case.cond[1:]:
-                    cond = Lor(cond, Eq(comp, c))
-            else:
-                cond = Eq(comp, case.cond[0])
+        cond = case_condition(comp, case.cond, wildcards)
         label = self.labels.get(self.frames.getLabelKey('if'))
         current = self.frames.addFrame(ScopeLabel(label, 'if'),
                                        frametype='ifthen',
@@ -281,7 +274,7 @@ class SignalVisitor(NodeVisitor):
                                        generate=self.frames.isGenerate(),
                                        always=self.frames.isAlways(),
                                        initial=self.frames.isInitial())
-        self._case(comp, caselist[1:])
+        self._case(comp, caselist[1:], wildcards)
 
     def visit_ForStatement(self, node):
         # pre-statement
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index ea89f20..8272526 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -52,6 +52,43 @@ class NodeVisitor(object):
             self.visit(c)
 
 
+# Conditions of case statements
+def wildcards_of(node):
+    """digits that a case item is not compared with"""
+    return 'z?' if isinstance(node, CasezStatement) else ''
+
+
+def case_condition(comp, conds, wildcards=''):
+    """condition under which comp matches one of conds (None: default)"""
+    if conds is None:
+        return IntConst('1')
+    ret = None
+    for c in conds:
+        match = Eq(*ignore_wildcards(comp, c, wildcards))
+        ret = match if ret is None else Lor(ret, match)
+    return ret
+
+
+def ignore_wildcards(comp, cond, wildcards):
+    if not isinstance(cond, IntConst):
+        return comp, cond
+    m = re.match(r"(\d*)'[sS]?([bBoOhH])(.+)", re.sub(r'[_\s]', '', cond.value))
+    if m is None or not any(d in wildcards for d in m.group(3).lower()):
+        return comp, cond
+    bits = {'b': 1, 'o': 3, 'h': 4}[m.group(2).lower()]
+    digits = m.group(3).lower()
+    value = ''.join('0' * bits if d in wildcards else
+                    d * bits if d in 'xz?' else format(int(d, 16), '0%db' % bits)
+                    for d in digits)
+    mask = ''.join(('0' if d in wildcards else '1') * bits for d in digits)
+    width = int(m.group(1) or 32)
+    fill = '0' if digits[0] in wildcards else '1'
+    mask = mask.rjust(width, fill)[-width:]
+    value = value.rjust(width, '0')[-width:]
+    return (And(comp, IntConst("%d'b%s" % (width, mask))),
+            IntConst("%d'b%s" % (width, value)))
+
+
 # Signal/Object Management Classes
 def default_last(caselist):
     """Wherever the default item stands, all others are tried before it."""
-- 
2.43.0


From 5708c8f35220826536992c8180e2e7709d75397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 56/88] fix: keep nonblocking assignments made under earlier
 conditions

---
 pyverilog/dataflow/bindvisitor.py | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index d2246ab..af85e3e 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -348,8 +348,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.true_statement is not None:
             self.visit(node.true_statement)
         self.frames.setCurrent(current)
@@ -368,8 +366,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.false_statement is not None:
             self.visit(node.false_statement)
         self.frames.setCurrent(current)
@@ -413,8 +409,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(self.frames.getCurrent())
 
         before = self.saveConstants()
@@ -438,8 +432,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(current + ScopeLabel(label, 'if'))
 
         self._case(comp, caselist[1:], myframes, wildcards)
@@ -666,24 +658,6 @@ class BindVisitor(NodeVisitor):
             self.dataflow.addTask(name, definition.getDefinition())
             self.dataflow.addTaskPorts(name, definition.getIOPorts())
 
-    def copyPreviousNonblockingAssign(self, scope):
-        assign = self.frames.getPreviousNonblockingAssign()
-        for name, bindlist in assign.items():
-            for bind in bindlist:
-                self.frames.addNonblockingAssign(name, bind)
-                msb = bind.msb
-                lsb = bind.lsb
-                ptr = bind.ptr
-                part_msb = None
-                part_lsb = None
-                condlist, flowlist = self.getCondflow(scope)
-                alwaysinfo = bind.alwaysinfo
-                raw_tree = bind.tree
-                new_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
-                                         raw_tree, condlist, flowlist,
-                                         alwaysinfo=alwaysinfo)
-                self.dataflow.addBind(name, new_bind)
-
     def copyBlockingAssigns(self, scope_copy_from, scope_copy_to):
         assign = self.frames.getBlockingAssignsScope(scope_copy_from)
         for name, bindlist in assign.items():
-- 
2.43.0


From 84e512b227dd3ab7f4f91d95102d819a6fd6393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 57/88] fix: index destinations with the values assigned so far

---
 pyverilog/dataflow/bindvisitor.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index af85e3e..8690748 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1404,23 +1404,23 @@ class BindVisitor(NodeVisitor):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.msb, scope))
-                    lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+                    msb = self.getIndex(left.msb, scope)
+                    lsb = self.getIndex(left.lsb, scope)
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
                 return (name, msb, lsb, ptr)
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            msb = self.optimize(self.makeDFTree(left.msb, scope))
-            lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+            msb = self.getIndex(left.msb, scope)
+            lsb = self.getIndex(left.lsb, scope)
             return (name, msb, lsb, None)
 
         if isinstance(left, Pointer):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.ptr, scope))
+                    msb = self.getIndex(left.ptr, scope)
                     lsb = copy.deepcopy(msb)
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
@@ -1428,7 +1428,7 @@ class BindVisitor(NodeVisitor):
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            ptr = self.optimize(self.makeDFTree(left.ptr, scope))
+            ptr = self.getIndex(left.ptr, scope)
             if self.getTermDims(name) is not None:
                 return (name, None, None, ptr)
             return (name, ptr, copy.deepcopy(ptr), None)
@@ -1436,6 +1436,11 @@ class BindVisitor(NodeVisitor):
         raise verror.FormatError("unsupported AST node type: %s %s" %
                                  (str(type(left)), str(left)))
 
+    def getIndex(self, node, scope):
+        """an index of a destination, with the values assigned so far"""
+        tree = self.makeDFTree(node, scope)
+        return self.optimize(self.resolveBlockingAssign(tree, scope))
+
     def setDataflow(self, dst, raw_tree, condlist, flowlist,
                     alwaysinfo=None, bindtype=None):
 
-- 
2.43.0


From cdd3fdbc1fe589f2d4899230118f0c9b45521bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 58/88] fix: constants with a range in instantiated modules

---
 pyverilog/dataflow/signalvisitor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index b3468b7..7746aba 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -379,9 +379,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError("Multiple definitions for Constant")
             for definition in definitions:
                 simple_definition = copy.deepcopy(definition)
-                if simple_definition.width is not None:
-                    simple_definition.width.msb = None
-                    simple_definition.width.lsb = None
+                simple_definition.width = None
                 term = self.makeConstantTerm(name, simple_definition, current)
                 self.setConstantTerm(name, term)
 
-- 
2.43.0


From 8816675477aee227694f3e446d266101568b4ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 59/88] fix: derive the constants of an instance from its
 overridden parameters

---
 pyverilog/dataflow/bindvisitor.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 8690748..654c4f3 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -576,7 +576,6 @@ class BindVisitor(NodeVisitor):
     def stackInstanceFrame(self, instname, modulename):
         current = self.frames.getCurrent()
         self.frames.setCurrent(current + ScopeLabel(instname, 'module'))
-        self.copyFrameInfo(current + ScopeLabel(instname, 'module'))
         return current
 
     def stackNextFrame(self, label, scopetype,
-- 
2.43.0


From 76dde4d650b59e8ee714621b37f705bdface3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 60/88] fix: connect scalars and wide ports of instance arrays

---
 pyverilog/dataflow/bindvisitor.py | 42 +++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 654c4f3..13bfb47 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -148,7 +148,7 @@ class BindVisitor(NodeVisitor):
 
         for i in range(lsb, msb + 1):
             nodename = node.name + '_' + str(i)
-            self._visit_Instance_body(node, nodename, arrayindex=i)
+            self._visit_Instance_body(node, nodename, arrayindex=i - lsb)
 
     def _visit_Instance_body(self, node, nodename, arrayindex=None):
         if node.module in primitives:
@@ -175,6 +175,9 @@ class BindVisitor(NodeVisitor):
             term = self.makeConstantTerm(name, definition, current)
             self.setConstantTerm(name, term)
 
+        new_current = self.frames.getCurrent()
+        self.copyFrameInfo(new_current)
+
         ioports = self.moduleinfotable.getIOPorts(node.module)
         for ioport_i, port in enumerate(node.portlist):
             if port.portname is not None and not (port.portname in ioports):
@@ -182,9 +185,6 @@ class BindVisitor(NodeVisitor):
                                          (port.argname.name, nodename))
             self.addInstancePortBind(port, ioports[ioport_i], arrayindex)
 
-        new_current = self.frames.getCurrent()
-        self.copyFrameInfo(new_current)
-
         self.visit(self.moduleinfotable.getDefinition(node.module))
         self.frames.setCurrent(current)
 
@@ -905,6 +905,31 @@ class BindVisitor(NodeVisitor):
 
         self.addDataflow(dst, param.argname, lscope, rscope, None, 'parameter')
 
+    def getPortArg(self, arg, portname, scope, arrayindex):
+        """what the port is connected to: an element of an array of instances
+        gets the whole of an argument as wide as the port, else its own part"""
+        if arrayindex is None:
+            return arg
+        msb, lsb = self.getTermRange(portname)
+        width = msb - lsb + 1
+        start = arrayindex * width
+        if isinstance(arg, Identifier):
+            argname = self.searchTerminal(arg.name, scope)
+            if argname is not None:
+                arg_msb, arg_lsb = self.getTermRange(argname)
+                if arg_msb - arg_lsb == msb - lsb:
+                    return arg
+                start += arg_lsb
+        if width == 1:
+            return Pointer(arg, IntConst(str(start)))
+        return Partselect(arg, IntConst(str(start + width - 1)), IntConst(str(start)))
+
+    def getTermRange(self, name):
+        msb, lsb = self.getTermWidth(name)
+        if msb is None or lsb is None:
+            return 0, 0
+        return self.optimize(msb).value, self.optimize(lsb).value
+
     def addInstancePortBind(self, port, instportname=None, arrayindex=None):
         lscope = self.frames.getCurrent()
         rscope = lscope[:-1]
@@ -918,21 +943,18 @@ class BindVisitor(NodeVisitor):
             if t == 'Input':
                 if port.argname is None:
                     continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                portarg = self.getPortArg(port.argname, ldst[0][0], rscope, arrayindex)
                 self.addDataflow(ldst, portarg, lscope, rscope)
             elif t == 'Output':
                 if port.argname is None:
                     continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                portarg = self.getPortArg(port.argname, ldst[0][0], rscope, arrayindex)
                 rdst = self.getDestinations(portarg, rscope)
                 self.addDataflow(rdst, portname, rscope, lscope)
             elif t == 'Inout':
                 if port.argname is None:
                     continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                portarg = self.getPortArg(port.argname, ldst[0][0], rscope, arrayindex)
                 self.addDataflow(ldst, portarg, lscope, rscope)
                 rdst = self.getDestinations(portarg, rscope)
                 self.addDataflow(rdst, portname, rscope, lscope)
-- 
2.43.0


From 8b23b67430dbae225aa07a7731caf6190a3cb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:48 +0000
Subject: [PATCH 61/88] fix: negative values are true as generate and loop
 conditions

---
 pyverilog/dataflow/bindvisitor.py   | 6 +++---
 pyverilog/dataflow/signalvisitor.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 13bfb47..ad77a67 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -307,7 +307,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
 
-            if rslt.value > 0:
+            if rslt.value != 0:
                 label = self._if_true(node)
                 if node.true_statement is not None:
                     self.copyBlockingAssigns(current + ScopeLabel(label, 'if'), current)
@@ -463,7 +463,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError(("Can not process the for-statement. "
                                           "for-condition should be evaluated statically."))
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
@@ -507,7 +507,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError(("Can not process the while-statement. "
                                           "while-condition should be evaluated statically."))
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 7746aba..56ec686 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -187,7 +187,7 @@ class SignalVisitor(NodeVisitor):
             rslt = self.optimize(tree)
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
-            if rslt.value > 0:
+            if rslt.value != 0:
                 label = self._if_true(node)
             else:
                 label = self.labels.get(self.frames.getLabelKey('if'))
@@ -296,7 +296,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError(("Can not process the for-statement. "
                                           "for-condition should be evaluated statically."))
             # loop termination
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
-- 
2.43.0


From 32069d3463b44c94744bdc6985bace63ee761db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 62/88] fix: signals in the walked tree keep their unassigned
 parts, ranges start at their own lowest bit, gaps of partly bound signals

---
 pyverilog/dataflow/merge.py   | 97 ++++++++++++++++++-----------------
 pyverilog/dataflow/replace.py | 43 ++++++++++------
 pyverilog/dataflow/walker.py  | 63 +++++++++++++++++------
 3 files changed, 126 insertions(+), 77 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index e748144..67a4adc 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -14,6 +14,7 @@ import os
 import pyverilog.utils.verror as verror
 import pyverilog.utils.signaltype as signaltype
 import pyverilog.dataflow.reorder as reorder
+import pyverilog.dataflow.replace as replace
 from pyverilog.dataflow.dataflow import *
 from pyverilog.dataflow.visit import *
 from pyverilog.dataflow.optimizer import VerilogOptimizer
@@ -131,31 +132,23 @@ class VerilogDataflowMerge(object):
             if 'any' in discretebinds:
                 return DFTerminal(termname)
 
+            if ptr is None:
+                return DFTerminal(termname)
+
             if isinstance(ptr, DFEvalValue):
-                if len(discretebinds[ptr.value]) == 0:
+                if ptr.value not in discretebinds:
                     return None
-                if len(discretebinds[ptr.value]) == 1:
-                    return discretebinds[ptr.value][0].tree
                 return self.getMergedTree(discretebinds[ptr.value])
 
-            minptr = min(list(discretebinds.keys()))
-            maxptr = max(list(discretebinds.keys()))
-            ret = None
-            for c in range(minptr, maxptr + 1):
-                truetree = None
-                if len(discretebinds[c]) == 0:
-                    continue
-                if len(discretebinds[c]) == 1:
-                    truetree = discretebinds[c][0].tree
-                else:
-                    truetree = self.getMergedTree(discretebinds[c])
+            ret = DFPointer(DFTerminal(termname), ptr)
+            for c in sorted(discretebinds.keys()):
+                truetree = replace.replaceUndefined(self.getMergedTree(discretebinds[c]),
+                                                    termname, ptr=DFEvalValue(c),
+                                                    width=self.getTermLength(termname))
                 ret = DFBranch(DFOperator((DFEvalValue(c), ptr), 'Eq'), truetree, ret)
             return ret
 
-        if len(bindlist) == 1:
-            return bindlist[0].tree
-        new_tree = self.getMergedTree(bindlist)
-        return self.optimizer.optimize(new_tree)
+        return self.optimizer.optimize(self.getMergedTree(bindlist))
 
     def getResolvedTree(self, termname, ptr=None):
         raise verror.ImplementationError()
@@ -277,27 +270,47 @@ class VerilogDataflowMerge(object):
             return ret
         raise verror.DefinitionError('Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
 
+    def getTermRange(self, termname):
+        term = self.getTerm(termname)
+        if term.msb is None or term.lsb is None:
+            return 0, 0
+        return self.optimizer.optimize(term.msb).value, self.optimizer.optimize(term.lsb).value
+
+    def getTermLength(self, termname):
+        msb, lsb = self.getTermRange(termname)
+        return msb - lsb + 1
+
+    def getBindKey(self, bind):
+        term_msb, term_lsb = self.getTermRange(bind.dest)
+        lsb = term_lsb if bind.lsb is None else bind.lsb.value
+        ptr = 0 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
+        return (ptr, lsb)
+
     def getMergedTree(self, optimized_bindlist):
+        """ the value of a whole signal, or of an element of an array, of which
+        parts are bound """
+        dest = optimized_bindlist[0].dest
+        ptr = optimized_bindlist[0].ptr if self.getTermDims(dest) is not None else None
+        term_msb, term_lsb = self.getTermRange(dest)
         concatlist = []
-        last_msb = -1
-        last_ptr = -1
-
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
-        for bind in sorted(optimized_bindlist, key=bindkey):
-            lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value):
-                continue
-            if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
-            concatlist.append(bind.tree)
-            last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
+        next_lsb = term_lsb
+
+        def keep(msb, lsb):
+            concatlist.append(replace.replaceUndefined(
+                None, dest, DFEvalValue(msb), DFEvalValue(lsb), ptr))
+
+        for bind in sorted(optimized_bindlist, key=self.getBindKey):
+            lsb = term_lsb if bind.lsb is None else bind.lsb.value
+            msb = term_msb if bind.msb is None else bind.msb.value
+            if next_lsb == term_lsb == lsb and msb == term_msb:
+                return bind.tree
+            if next_lsb < lsb:
+                keep(lsb - 1, next_lsb)
+            concatlist.append(replace.replaceUndefined(
+                bind.tree, dest, DFEvalValue(msb), DFEvalValue(lsb), ptr, width=msb - lsb + 1))
+            next_lsb = msb + 1
+        if next_lsb <= term_msb:
+            keep(term_msb, next_lsb)
         return DFConcat(tuple(reversed(concatlist)))
 
     def getOptimizedBindlist(self, bindlist):
@@ -325,15 +338,7 @@ class VerilogDataflowMerge(object):
         merged_bindlist = []
         last_bind = None
 
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
-
-        for bind in sorted(bindlist, key=bindkey):
+        for bind in sorted(bindlist, key=self.getBindKey):
             if last_bind is None:
                 merged_bindlist.append(copy.deepcopy(bind))
                 last_bind = copy.deepcopy(bind)
diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index cb13f4b..b898a28 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -15,12 +15,23 @@ import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
-def replaceUndefined(tree, termname, term_msb=None, term_lsb=None):
-    if tree is None or isinstance(tree, DFUndefined):
-        term = DFTerminal(termname)
-        if term_msb is None:
-            return term
-        return DFPartselect(term, term_msb, term_lsb)
+def replaceUndefined(tree, termname, term_msb=None, term_lsb=None, ptr=None, width=None):
+    """ If a width is given, only undefined values of that width are replaced """
+    term = DFTerminal(termname)
+    if ptr is not None:
+        term = DFPointer(term, ptr)
+    if term_msb is not None:
+        term = DFPartselect(term, term_msb, term_lsb)
+    return replaceUndefinedBy(tree, term, width)
+
+
+def replaceUndefinedBy(tree, term, width=None):
+    if tree is None:
+        return term
+    if isinstance(tree, DFUndefined):
+        if width is not None and tree.width != width:
+            return tree
+        return term
     # if isinstance(tree, DFHighImpedance): return DFTerminal(termname)
     if isinstance(tree, DFConstant):
         return tree
@@ -29,27 +40,27 @@ def replaceUndefined(tree, termname, term_msb=None, term_lsb=None):
     if isinstance(tree, DFTerminal):
         return tree
     if isinstance(tree, DFBranch):
-        condnode = replaceUndefined(tree.condnode, termname, term_msb, term_lsb)
-        truenode = replaceUndefined(tree.truenode, termname, term_msb, term_lsb)
-        falsenode = replaceUndefined(tree.falsenode, termname, term_msb, term_lsb)
+        condnode = replaceUndefinedBy(tree.condnode, term, width)
+        truenode = replaceUndefinedBy(tree.truenode, term, width)
+        falsenode = replaceUndefinedBy(tree.falsenode, term, width)
         return DFBranch(condnode, truenode, falsenode)
     if isinstance(tree, DFOperator):
         nextnodes = []
         for n in tree.nextnodes:
-            nextnodes.append(replaceUndefined(n, termname, term_msb, term_lsb))
+            nextnodes.append(replaceUndefinedBy(n, term, width))
         return DFOperator(tuple(nextnodes), tree.operator)
     if isinstance(tree, DFPartselect):
-        msb = replaceUndefined(tree.msb, termname, term_msb, term_lsb)
-        lsb = replaceUndefined(tree.lsb, termname, term_msb, term_lsb)
-        var = replaceUndefined(tree.var, termname, term_msb, term_lsb)
+        msb = replaceUndefinedBy(tree.msb, term, width)
+        lsb = replaceUndefinedBy(tree.lsb, term, width)
+        var = replaceUndefinedBy(tree.var, term, width)
         return DFPartselect(var, msb, lsb)
     if isinstance(tree, DFPointer):
-        ptr = replaceUndefined(tree.ptr, termname, term_msb, term_lsb)
-        var = replaceUndefined(tree.var, termname, term_msb, term_lsb)
+        ptr = replaceUndefinedBy(tree.ptr, term, width)
+        var = replaceUndefinedBy(tree.var, term, width)
         return DFPointer(var, ptr)
     if isinstance(tree, DFConcat):
         nextnodes = []
         for n in tree.nextnodes:
-            nextnodes.append(replaceUndefined(n, termname, term_msb, term_lsb))
+            nextnodes.append(replaceUndefinedBy(n, term, width))
         return DFConcat(tuple(nextnodes))
     raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 5b69358..dfaac47 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -31,11 +31,11 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             raise verror.DefinitionError('No such signals: %s' % str(name))
         tree = self.getTree(termname)
         walked_tree = self.walkTree(tree, visited=set(), step=step)
-        return replace.replaceUndefined(walked_tree, termname)
+        return replace.replaceUndefined(walked_tree, termname, width=self.getTermLength(termname))
 
     def walkTree(self, tree, visited=set([]), step=0, delay=False, msb=None, lsb=None, ptr=None):
         if tree is None:
-            return DFUndefined(32)
+            return None
 
         if isinstance(tree, DFUndefined):
             return tree
@@ -68,17 +68,23 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                 nptr = ptr
 
             nextstep = step
-            if signaltype.isReg(termtype):
-                if (not self.isCombination(termname) and
-                    not signaltype.isRename(termtype) and
-                        nextstep == 0):
+            if self.isRegister(termname):
+                if nextstep == 0:
                     return tree
-                if (not self.isCombination(termname)
-                        and not signaltype.isRename(termtype)):
-                    nextstep -= 1
+                nextstep -= 1
 
-            return self.walkTree(self.getTree(termname, nptr),
-                                 visited | set([termname, ]), nextstep, delay)
+            nexttree = self.getTree(termname, nptr)
+            if nexttree is None:
+                return tree
+            if self.isFunctionVariable(termname):
+                # a part that is not assigned has no value to keep
+                nexttree = replace.replaceUndefinedBy(
+                    nexttree, DFUndefined(self.getTermLength(termname)), self.getTermLength(termname))
+            else:
+                # a part that is not assigned keeps the value of this signal
+                nexttree = replace.replaceUndefined(nexttree, termname, ptr=nptr,
+                                                    width=self.getTermLength(termname))
+            return self.walkTree(nexttree, visited | set([termname, ]), nextstep, delay)
 
         if isinstance(tree, DFBranch):
             condnode = self.walkTree(tree.condnode, visited, step, delay)
@@ -96,11 +102,13 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             msb = self.walkTree(tree.msb, visited, step, delay)
             lsb = self.walkTree(tree.lsb, visited, step, delay)
             var = self.walkTree(tree.var, visited, step, delay, msb=msb, lsb=lsb)
+            offset = self.getFirstBit(var) - self.getFirstBit(tree.var)
             if isinstance(var, DFPartselect):
-                child_lsb = self.getTerm(str(tree.var)).lsb.eval()
-                return DFPartselect(var.var, DFIntConst(str(msb.eval() + var.lsb.eval() - child_lsb)),
-                                    DFIntConst(str(lsb.eval() + var.lsb.eval() - child_lsb)))
-            return DFPartselect(var, msb, lsb)
+                if isinstance(tree.var, DFPartselect):
+                    return DFPartselect(var, msb, lsb)
+                return DFPartselect(var.var, self.addIndex(var.lsb, self.addConstant(msb, offset)),
+                                    self.addIndex(var.lsb, self.addConstant(lsb, offset)))
+            return DFPartselect(var, self.addConstant(msb, offset), self.addConstant(lsb, offset))
 
         if isinstance(tree, DFPointer):
             ptr = self.walkTree(tree.ptr, visited, step, delay)
@@ -119,3 +127,28 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
 
         raise verror.DefinitionError(
             'Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
+
+    def isRegister(self, termname):
+        return (len(self.getBindlist(termname)) > 0 and not self.isCombination(termname) and
+                not signaltype.isRename(self.getTermtype(termname)))
+
+    def isFunctionVariable(self, termname):
+        return any(label.scopetype == 'functioncall' for label in termname)
+
+    def getFirstBit(self, tree):
+        """ the index of the rightmost bit in selects from the tree """
+        if isinstance(tree, DFPointer):
+            return self.getFirstBit(tree.var)
+        if isinstance(tree, DFTerminal):
+            return self.getTermRange(tree.name)[1]
+        return 0
+
+    def addConstant(self, index, offset):
+        if offset == 0:
+            return index
+        if offset < 0:
+            return self.optimizer.optimize(DFOperator((index, DFEvalValue(-offset)), 'Minus'))
+        return self.optimizer.optimize(DFOperator((index, DFEvalValue(offset)), 'Plus'))
+
+    def addIndex(self, base, index):
+        return self.optimizer.optimize(DFOperator((base, index), 'Plus'))
-- 
2.43.0


From 3bd8c932607d612ab6cdf13e88fafb94d8630ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 63/88] fix: keep always blocks and null statements without
 event control in generated code

---
 pyverilog/ast_code_generator/template/always.txt         | 2 +-
 pyverilog/ast_code_generator/template/eventstatement.txt | 2 +-
 pyverilog/vparser/parser.py                              | 9 +++++----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyverilog/ast_code_generator/template/always.txt b/pyverilog/ast_code_generator/template/always.txt
index 299eee8..d606731 100644
--- a/pyverilog/ast_code_generator/template/always.txt
+++ b/pyverilog/ast_code_generator/template/always.txt
@@ -1,3 +1,3 @@
 
-always @({{ sens_list }}) {{ statement }}
+always {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/eventstatement.txt b/pyverilog/ast_code_generator/template/eventstatement.txt
index 098301c..fafecdd 100644
--- a/pyverilog/ast_code_generator/template/eventstatement.txt
+++ b/pyverilog/ast_code_generator/template/eventstatement.txt
@@ -1 +1 @@
-@({{ senslist }});
+{% if senslist != '' %}@({{ senslist }}){% endif %};
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 60094fa..98b9474 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1364,8 +1364,7 @@ class VerilogParser(object):
 
     def p_sens_empty(self, p):
         'senslist : empty'
-        p[0] = SensList(
-            (Sens(None, 'all', lineno=p.lineno(1)),), lineno=p.lineno(1))
+        p[0] = SensList((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_sens_level(self, p):
@@ -1750,8 +1749,10 @@ class VerilogParser(object):
     # --------------------------------------------------------------------------
     def p_event_statement(self, p):
         'event_statement : senslist SEMICOLON'
-        p[0] = EventStatement(p[1], lineno=p.lineno(1))
-        p.set_lineno(0, p.lineno(1))
+        # without event control: null statement
+        lineno = p.lineno(1) if p[1].list else p.lineno(2)
+        p[0] = EventStatement(p[1], lineno=lineno)
+        p.set_lineno(0, lineno)
         p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From b05efb1dea1ad07e36440d61bce96aeee52fea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:41 +0000
Subject: [PATCH 64/88] fix: generate indexed part selects, whose base may be
 variable

---
 pyverilog/ast_code_generator/codegen.py        | 18 ++++++++++++++++--
 .../ast_code_generator/template/partselect.txt |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index dc7c021..4824768 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -511,14 +511,28 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Partselect(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        left, separator, right = self._partselect_range(node)
         template_dict = {
             'var': self.visit(node.var),
-            'msb': del_space(del_paren(self.visit(node.msb))),
-            'lsb': del_space(del_paren(self.visit(node.lsb))),
+            'left': del_space(del_paren(self.visit(left))),
+            'separator': separator,
+            'right': del_space(del_paren(self.visit(right))),
         }
         rslt = template.render(template_dict)
         return rslt
 
+    def _partselect_range(self, node):
+        """ Bounds of the form that the parser gives to [base +: width] and
+        [base -: width] need that form: their base may be variable. """
+        msb, lsb = node.msb, node.lsb
+        if (isinstance(msb, Minus) and isinstance(msb.left, Plus) and
+                isinstance(msb.right, IntConst) and msb.right.value == '1' and msb.left.left == lsb):
+            return lsb, ' +: ', msb.left.right
+        if (isinstance(lsb, Plus) and isinstance(lsb.left, Minus) and
+                isinstance(lsb.right, IntConst) and lsb.right.value == '1' and lsb.left.left == msb):
+            return msb, ' -: ', lsb.left.right
+        return msb, ':', lsb
+
     def visit_Pointer(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/partselect.txt b/pyverilog/ast_code_generator/template/partselect.txt
index c11a2ea..fb7f9b9 100644
--- a/pyverilog/ast_code_generator/template/partselect.txt
+++ b/pyverilog/ast_code_generator/template/partselect.txt
@@ -1 +1 @@
-{{ var }}[{{ msb }}:{{ lsb }}]
+{{ var }}[{{ left }}{{ separator }}{{ right }}]
-- 
2.43.0


From 13c132d7b0e2841b2ae747ff90df0bd27e964235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 65/88] fix: keep the delay in front of an if statement

---
 pyverilog/vparser/parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 98b9474..df61401 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1595,12 +1595,26 @@ class VerilogParser(object):
         p[0] = IfStatement(p[4], p[6], p[8], lineno=p.lineno(2))
         p.set_lineno(0, p.lineno(2))
         p[0].end_lineno = p[8].end_lineno
+        self._put_delay(p)
 
     def p_if_statement_woelse_delay(self, p):
         'if_statement : delays IF LPAREN cond RPAREN true_statement'
         p[0] = IfStatement(p[4], p[6], None, lineno=p.lineno(2))
         p.set_lineno(0, p.lineno(2))
         p[0].end_lineno = p[6].end_lineno
+        self._put_delay(p)
+
+    def _put_delay(self, p):
+        # a delayed statement is a block of the delay and the statement
+        if p[1] is None:
+            return
+        lineno = p[1].lineno
+        delay = SingleStatement(p[1], lineno=lineno)
+        delay.end_lineno = lineno
+        end_lineno = p[0].end_lineno
+        p[0] = Block((delay, p[0]), lineno=lineno)
+        p.set_lineno(0, lineno)
+        p[0].end_lineno = end_lineno
 
     def p_cond(self, p):
         'cond : expression'
-- 
2.43.0


From 263728d8939200cf6d52d2e7bc1adce26df1e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:13 +0000
Subject: [PATCH 66/88] fix: collect and rename every identifier occurrence
 once, keep its scope

---
 pyverilog/utils/identifierreplace.py | 15 ++++++++++++++-
 pyverilog/utils/identifiervisitor.py | 16 ++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index 65355b3..f7d4abd 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -48,8 +48,16 @@ def children_items(node):
 class IdentifierReplace(object):
     def __init__(self, ids):
         self.ids = ids
+        self.visited = {}  # nodes may occur at several places of a tree
 
     def visit(self, node):
+        if not isinstance(node, Node):
+            return node
+        if id(node) not in self.visited:
+            self.visited[id(node)] = (node, self.visit_node(node))
+        return self.visited[id(node)][1]
+
+    def visit_node(self, node):
         method = 'visit_' + node.__class__.__name__
         visitor = getattr(self, method, self.generic_visit)
         ret = visitor(node)
@@ -73,6 +81,11 @@ class IdentifierReplace(object):
         return node
 
     def visit_Identifier(self, node):
+        self.generic_visit(node)
         if node.name in self.ids:
-            return vast.Identifier(self.ids[node.name])
+            return vast.Identifier(self.ids[node.name], node.scope, lineno=node.lineno)
+        return node
+
+    def visit_IdentifierScopeLabel(self, node):
+        node.loop = self.visit(node.loop)
         return node
diff --git a/pyverilog/utils/identifiervisitor.py b/pyverilog/utils/identifiervisitor.py
index 2f906ef..71929a3 100644
--- a/pyverilog/utils/identifiervisitor.py
+++ b/pyverilog/utils/identifiervisitor.py
@@ -12,6 +12,7 @@ import sys
 import os
 
 from pyverilog.dataflow.visit import NodeVisitor
+from pyverilog.vparser.ast import Node
 
 
 def getIdentifiers(node):
@@ -32,4 +33,19 @@ class IdentifierVisitor(NodeVisitor):
         self.identifiers = []
 
     def visit_Identifier(self, node):
+        self.generic_visit(node)
         self.identifiers.append(node.name)
+
+    def visit_IdentifierScopeLabel(self, node):
+        if isinstance(node.loop, Node):
+            self.visit(node.loop)
+
+    def visit_InstanceList(self, node):
+        # the instances repeat the parameters of their list
+        params = node.parameterlist or ()
+        for c in params:
+            self.visit(c)
+        for instance in node.instances or ():
+            for c in instance.children():
+                if not any(c is p for p in params):
+                    self.visit(c)
-- 
2.43.0


From d5bc79ed3a563927a89b366841d2e12204f53cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:07 +0000
Subject: [PATCH 67/88] fix: keep parallel edges of the dataflow graph

---
 pyverilog/dataflow/graphgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/graphgen.py b/pyverilog/dataflow/graphgen.py
index a23c406..81138c3 100644
--- a/pyverilog/dataflow/graphgen.py
+++ b/pyverilog/dataflow/graphgen.py
@@ -43,7 +43,7 @@ class VerilogGraphGenerator(object):
         self.binddict = binddict
         self.resolved_terms = resolved_terms
         self.resolved_binddict = resolved_binddict
-        self.graph = pgv.AGraph(directed=True)  # pgv.AGraph(strict=False, directed=True)
+        self.graph = pgv.AGraph(strict=False, directed=True)
         self.filename = filename
         self.withcolor = withcolor
 
-- 
2.43.0


From bc3bb9876c0702bacec4e9fad9ff1ddbc89c516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:42 +0000
Subject: [PATCH 68/88] fix: integer literals are reduced to their width and
 signed ones may be negative

---
 pyverilog/dataflow/dataflow.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index b140968..ea6062f 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -151,8 +151,12 @@ class DFIntConst(DFConstant):
         return ret
 
     def eval(self):
-        base, digits = self._split()[1:]
-        return int(digits, base)
+        signed, base, digits = self._split()[1:]
+        width = self.width()
+        value = int(digits, base) & ((1 << width) - 1)
+        if signed and value >> (width - 1):
+            value -= 1 << width
+        return value
 
     def width(self):
         width = self._split()[0]
@@ -162,11 +166,11 @@ class DFIntConst(DFConstant):
 
     def _split(self):
         targ = self.value.replace('_', '').replace(' ', '')
-        match = re.match(r"(.*)'[Ss]?([HhDdOoBb])(.+)", targ)
+        match = re.match(r"(.*)'([Ss]?)([HhDdOoBb])(.+)", targ)
         if match is None:
-            return '', 10, targ
-        base = {'h': 16, 'd': 10, 'o': 8, 'b': 2}[match.group(2).lower()]
-        return match.group(1), base, match.group(3)
+            return '', False, 10, targ
+        base = {'h': 16, 'd': 10, 'o': 8, 'b': 2}[match.group(3).lower()]
+        return match.group(1), match.group(2) != '', base, match.group(4)
 
 
 class DFFloatConst(DFConstant):
-- 
2.43.0


From 5cda5a613bf259eae0c2b9e57454c30ea1b85231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:55 +0000
Subject: [PATCH 69/88] fix: resolve conditionals and sign conversions in
 constant expressions

---
 pyverilog/dataflow/signalvisitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 56ec686..10676b1 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -506,7 +506,7 @@ class SignalVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
@@ -556,9 +556,9 @@ class SignalVisitor(NodeVisitor):
 
         if isinstance(node, SystemCall):
             if node.syscall == 'unsigned':
-                return self.makeDFTree(node.args[0])
+                return self.makeDFTree(node.args[0], scope)
             if node.syscall == 'signed':
-                return self.makeDFTree(node.args[0])
+                return self.makeDFTree(node.args[0], scope)
             return DFIntConst('0')
 
         raise verror.FormatError("unsupported AST node type: %s %s" %
-- 
2.43.0


From 4b6cdf3145f36a56815fc1f1750753fa88419f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:55 +0000
Subject: [PATCH 70/88] fix: reduce constants to their declared range and
 select their bits relative to it

---
 pyverilog/dataflow/bindvisitor.py   | 17 +++++++++------
 pyverilog/dataflow/dataflow.py      | 16 +++++++++++++-
 pyverilog/dataflow/modulevisitor.py |  5 ++++-
 pyverilog/dataflow/optimizer.py     | 27 ++++++++++++++++-------
 pyverilog/dataflow/signalvisitor.py | 33 +++++++++++++++++++++--------
 pyverilog/dataflow/visit.py         | 13 ++++++++++++
 6 files changed, 86 insertions(+), 25 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index ad77a67..db5177f 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -90,6 +90,7 @@ class BindVisitor(NodeVisitor):
         if not self.hasConstant(name):
             value = self.optimize(self.getTree(node.value, current))
             self.setConstant(name, value)
+        self.fitConstant(name, node)
 
         if len(self.dataflow.getBindlist(name)) == 0:
             self.addBind(node.name, node.value, bindtype='parameter')
@@ -107,6 +108,7 @@ class BindVisitor(NodeVisitor):
         if not self.hasConstant(name):
             value = self.optimize(self.getTree(node.value, current))
             self.setConstant(name, value)
+        self.fitConstant(name, node)
 
         self.addBind(node.name, node.value, bindtype='localparam')
 
@@ -616,13 +618,14 @@ class BindVisitor(NodeVisitor):
                 cterm = self.makeConstantTerm(name, definition, current)
                 self.setConstantTerm(name, cterm)
 
-        all_passed = False
-        while not all_passed:
-            all_passed = True
+        progress = True
+        while progress:
+            progress = False
             for name, definitions in self.frames.getConsts(current).items():
                 if len(definitions) > 1:
                     raise verror.FormatError("Multiple definitions for Constant")
                 if self.hasConstant(name):
+                    self.fitConstant(name, definitions[0])
                     continue
 
                 for definition in definitions:
@@ -630,9 +633,10 @@ class BindVisitor(NodeVisitor):
                         continue
                     value = self.optimize(self.getTree(definition.value, current))
                     if not isinstance(value, DFEvalValue):
-                        all_passed = False
                         continue
                     self.setConstant(name, value)
+                    progress = True
+                    self.fitConstant(name, definition)
 
     def copyAllFrameInfo(self):
         for name, definitions in self.frames.getAllConsts().items():
@@ -848,7 +852,7 @@ class BindVisitor(NodeVisitor):
         termtypes = set([termtype])
         msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
         lsb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.lsb, scope)
-        return Term(name, termtypes, msb, lsb)
+        return Term(name, termtypes, msb, lsb, has_range=node.width is not None)
 
     def addTerm(self, node, rscope=None):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
@@ -879,7 +883,8 @@ class BindVisitor(NodeVisitor):
                 dims.append((l, r))
             dims = tuple(dims)
 
-        term = Term(name, termtypes, msb, lsb, dims)
+        has_range = node.width is not None or not isinstance(node, (Parameter, Localparam))
+        term = Term(name, termtypes, msb, lsb, dims, node.signed, has_range)
         self.dataflow.addTerm(name, term)
         self.setConstantTerm(name, term)
 
diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index ea6062f..34473c4 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -474,6 +474,15 @@ class DFEvalValue(DFNode):
         self.isfloat = isfloat
         self.isstring = isstring
 
+    def fit(self, width, signed):
+        """value reduced to a width"""
+        if self.isfloat or self.isstring:
+            return self
+        value = self.value & ((1 << width) - 1)
+        if signed and value >> (width - 1):
+            value -= 1 << width
+        return DFEvalValue(value, width)
+
     def __repr__(self):
         if self.isstring:
             return self.value
@@ -673,12 +682,15 @@ class DFSyscall(DFNotTerminal):
 
 
 class Term(object):
-    def __init__(self, name, termtype=(), msb=None, lsb=None, dims=None):
+    def __init__(self, name, termtype=(), msb=None, lsb=None, dims=None,
+                 signed=False, has_range=True):
         self.name = name  # tuple (str)
         self.termtype = termtype  # set (str)
         self.msb = msb  # DFNode
         self.lsb = lsb  # DFNode
         self.dims = dims  # tuple/list of pair of DFNode
+        self.signed = signed
+        self.has_range = has_range  # False: constant with the width of its value
 
     def __repr__(self):
         return str(self.name)
@@ -951,6 +963,8 @@ class DataFlow(object):
 
     def setTerm(self, name, term):
         self.terms[name].termtype |= term.termtype
+        self.terms[name].signed |= term.signed
+        self.terms[name].has_range &= term.has_range
         if self.terms[name].msb is None:
             self.terms[name].msb = term.msb
         if self.terms[name].lsb is None:
diff --git a/pyverilog/dataflow/modulevisitor.py b/pyverilog/dataflow/modulevisitor.py
index 402bf8e..cd10c77 100644
--- a/pyverilog/dataflow/modulevisitor.py
+++ b/pyverilog/dataflow/modulevisitor.py
@@ -40,10 +40,13 @@ class ModuleVisitor(NodeVisitor):
         self.moduleinfotable.addConst(node.name, node)
         self.moduleinfotable.addParamName(node.name)
 
-    def visit_Locaparam(self, node):
+    def visit_Localparam(self, node):
         self.moduleinfotable.addConst(node.name, node)
 
     # Skip Rule
+    def visit_GenerateStatement(self, node):
+        pass
+
     def visit_Function(self, node):
         pass
 
diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 969c58b..caf2170 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -115,15 +115,14 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFTerminal):
             if not self.hasConstant(tree.name):
                 return tree
-            msb = self.getTerm(tree.name).msb
-            lsb = self.getTerm(tree.name).lsb
+            term = self.getTerm(tree.name)
             const = self.getConstant(tree.name)
             constwidth = const.width
-            if msb is not None and lsb is not None:
-                msb_val = self.optimizeConstant(msb)
-                lsb_val = self.optimizeConstant(lsb)
+            if term.has_range and term.msb is not None and term.lsb is not None:
+                msb_val = self.optimizeConstant(term.msb)
+                lsb_val = self.optimizeConstant(term.lsb)
                 if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
-                    constwidth = msb_val.value - lsb_val.value + 1
+                    constwidth = abs(msb_val.value - lsb_val.value) + 1
             return DFEvalValue(const.value, constwidth)
 
         if isinstance(tree, DFConcat):
@@ -1036,6 +1035,18 @@ class VerilogDataflowOptimizer(VerilogOptimizer):
     def getTerm(self, name):
         return self.terms[name]
 
+    def fitConstant(self, name, value):
+        """value of a constant reduced to the range of its term"""
+        term = self.getTerm(name)
+        if not term.has_range:
+            return value
+        msb = self.optimizeConstant(term.msb)
+        lsb = self.optimizeConstant(term.lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            return value
+        width = abs(msb.value - lsb.value) + 1
+        return value.fit(width, term.signed)
+
     def resolveConstant(self):
         # 2-pass
         for bk, bv in sorted(self.binddict.items(), key=lambda x: len(x[0])):
@@ -1043,14 +1054,14 @@ class VerilogDataflowOptimizer(VerilogOptimizer):
             if signaltype.isParameter(termtype) or signaltype.isLocalparam(termtype):
                 rslt = self.optimizeConstant(bv[0].tree)
                 if isinstance(rslt, DFEvalValue):
-                    self.constlist[bk] = rslt
+                    self.constlist[bk] = self.fitConstant(bk, rslt)
 
         for bk, bv in sorted(self.binddict.items(), key=lambda x: len(x[0])):
             termtype = self.getTerm(bk).termtype
             if signaltype.isParameter(termtype) or signaltype.isLocalparam(termtype):
                 rslt = self.optimizeConstant(bv[0].tree)
                 if isinstance(rslt, DFEvalValue):
-                    self.constlist[bk] = rslt
+                    self.constlist[bk] = self.fitConstant(bk, rslt)
 
         self.resolved_binddict = copy.deepcopy(self.binddict)
         for bk, bv in sorted(self.binddict.items(), key=lambda x: len(x[0])):
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 10676b1..901cfb0 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -68,6 +68,7 @@ class SignalVisitor(NodeVisitor):
         if not self.hasConstant(name):
             value = self.optimize(self.getTree(node.value, self.frames.getCurrent()))
             self.setConstant(name, value)
+        self.fitConstant(name, node)
 
     def visit_Localparam(self, node):
         self.frames.addConst(node)
@@ -75,6 +76,7 @@ class SignalVisitor(NodeVisitor):
         if not self.hasConstant(name):
             value = self.optimize(self.getTree(node.value, self.frames.getCurrent()))
             self.setConstant(name, value)
+        self.fitConstant(name, node)
 
     def visit_Genvar(self, node):
         self.frames.addConst(node)
@@ -395,14 +397,15 @@ class SignalVisitor(NodeVisitor):
     def setInstanceConstants(self):
         current = self.frames.getCurrent()
 
-        all_passed = False
-        while not all_passed:
-            all_passed = True
+        progress = True
+        while progress:
+            progress = False
             for name, definitions in self.frames.getConsts(current).items():
                 if len(definitions) > 1:
                     raise verror.FormatError("Multiple definitions for Constant")
 
                 if self.hasConstant(name):
+                    self.fitConstant(name, definitions[0])
                     continue
 
                 for definition in definitions:
@@ -410,10 +413,11 @@ class SignalVisitor(NodeVisitor):
                         continue
                     value = self.optimize(self.getTree(definition.value, current))
                     if not isinstance(value, DFEvalValue):
-                        all_passed = False
                         continue
 
                     self.setConstant(name, value)
+                    progress = True
+                    self.fitConstant(name, definition)
 
     def setConstant(self, name, value):
         self.optimizer.setConstant(name, value)
@@ -476,7 +480,17 @@ class SignalVisitor(NodeVisitor):
         termtypes = set([termtype])
         msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
         lsb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.lsb, scope)
-        return Term(name, termtypes, msb, lsb)
+        return Term(name, termtypes, msb, lsb, has_range=node.width is not None)
+
+    def makeSelectPosition(self, var, position, scope):
+        """position in the value of a constant that a select gives relative to its range"""
+        position_df = self.makeDFTree(position, scope)
+        if not isinstance(var, Identifier) or var.scope is not None:
+            return position_df
+        definition = self.searchConstantDefinition(scope, var.name)[1][0]
+        if definition.width is None:
+            return position_df
+        return DFOperator((position_df, self.makeDFTree(definition.width.lsb, scope)), 'Minus')
 
     def getTree(self, node, scope):
         expr = node.var if isinstance(node, Rvalue) else node
@@ -524,8 +538,8 @@ class SignalVisitor(NodeVisitor):
 
         if isinstance(node, Partselect):
             var_df = self.makeDFTree(node.var, scope)
-            msb_df = self.makeDFTree(node.msb, scope)
-            lsb_df = self.makeDFTree(node.lsb, scope)
+            msb_df = self.makeSelectPosition(node.var, node.msb, scope)
+            lsb_df = self.makeSelectPosition(node.var, node.lsb, scope)
 
             if isinstance(var_df, DFBranch):
                 return reorder.insertPartselect(var_df, msb_df, lsb_df)
@@ -533,9 +547,10 @@ class SignalVisitor(NodeVisitor):
 
         if isinstance(node, Pointer):
             var_df = self.makeDFTree(node.var, scope)
-            ptr_df = self.makeDFTree(node.ptr, scope)
+            ptr_df = self.makeSelectPosition(node.var, node.ptr, scope)
 
-            return DFPointer(var_df, ptr_df)
+            # a bit of a constant
+            return DFPartselect(var_df, ptr_df, ptr_df)
 
         if isinstance(node, Concat):
             nextnodes = []
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 8272526..9170ed3 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -19,6 +19,7 @@ import pyverilog.utils.util as util
 import pyverilog.utils.verror as verror
 from pyverilog.utils.scope import ScopeLabel, ScopeChain
 from pyverilog.vparser.ast import *
+from pyverilog.dataflow.dataflow import DFEvalValue
 
 
 def map_key(f, d): return collections.OrderedDict([(f(k), v) for k, v in d.items()])
@@ -51,6 +52,18 @@ class NodeVisitor(object):
         for c in node.children():
             self.visit(c)
 
+    def fitConstant(self, name, node):
+        """reduce the value of a constant to the range it is declared with"""
+        value = self.getConstant(name)
+        if node.width is None or not isinstance(value, DFEvalValue):
+            return
+        current = self.frames.getCurrent()
+        msb = self.optimize(self.getTree(node.width.msb, current))
+        lsb = self.optimize(self.getTree(node.width.lsb, current))
+        if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+            width = abs(msb.value - lsb.value) + 1
+            self.setConstant(name, value.fit(width, node.signed))
+
 
 # Conditions of case statements
 def wildcards_of(node):
-- 
2.43.0


From 92c1638bbec17a499b38e8992ab196b658572428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:54 +0000
Subject: [PATCH 71/88] fix: variables declared in functions and tasks are not
 signals of the module

---
 pyverilog/dataflow/visit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 9170ed3..635ec3c 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -434,6 +434,7 @@ class Frame(object):
         self.loop_iter = loop_iter
 
         self.variables = Variables()
+        self.localvars = SignalTable()  # of functions and tasks
         self.functions = FunctionInfoTable()
         self.tasks = TaskInfoTable()
         self.blockingassign = collections.OrderedDict()
@@ -491,6 +492,9 @@ class Frame(object):
     def addSignal(self, node):
         self.variables.addSignal(node.name, node)
 
+    def addLocal(self, node):
+        self.localvars.add(node.name, node)
+
     def addConst(self, node):
         self.variables.addConst(node.name, node)
 
@@ -522,10 +526,12 @@ class Frame(object):
         return self.variables.hasConst(name)
 
     def getSignal(self, name):
+        if not self.variables.hasSignal(name):
+            return self.localvars.get(name)
         return self.variables.getSignal(name)
 
     def hasSignal(self, name):
-        return self.variables.hasSignal(name)
+        return self.variables.hasSignal(name) or self.localvars.has(name)
 
     def getSignals(self):
         return self.variables.getSignals()
@@ -730,6 +736,9 @@ class FrameTable(object):
         if self.task_def and isinstance(var, Input):
             self.dict[self.current].addTaskPort(var)
             return
+        if self.function_def or self.task_def:
+            self.dict[self.current].addLocal(var)
+            return
         self.dict[self.current].addSignal(var)
 
     def addConst(self, var):
-- 
2.43.0


From afa69559eb453157c6f9302395e3b08a8aedae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:54 +0000
Subject: [PATCH 72/88] fix: arrays of instances with ascending ranges

---
 pyverilog/dataflow/bindvisitor.py   | 5 ++---
 pyverilog/dataflow/signalvisitor.py | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index db5177f..9412bc1 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -146,11 +146,10 @@ class BindVisitor(NodeVisitor):
         current = self.frames.getCurrent()
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
-        num_of_pins = msb + 1 - lsb
 
-        for i in range(lsb, msb + 1):
+        for i in range(min(msb, lsb), max(msb, lsb) + 1):
             nodename = node.name + '_' + str(i)
-            self._visit_Instance_body(node, nodename, arrayindex=i - lsb)
+            self._visit_Instance_body(node, nodename, arrayindex=abs(i - lsb))
 
     def _visit_Instance_body(self, node, nodename, arrayindex=None):
         if node.module in primitives:
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 901cfb0..86822f0 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -124,7 +124,7 @@ class SignalVisitor(NodeVisitor):
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
 
-        for i in range(lsb, msb + 1):
+        for i in range(min(msb, lsb), max(msb, lsb) + 1):
             nodename = node.name + '_' + str(i)
             self._visit_Instance_body(node, nodename)
 
-- 
2.43.0


From 0a5a817832d027dc56b8a0a378d894fcc8f6900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:54 +0000
Subject: [PATCH 73/88] fix: ranges of declarations in generate loops use the
 value of the loop index

---
 pyverilog/dataflow/bindvisitor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 9412bc1..0b98681 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -868,17 +868,17 @@ class BindVisitor(NodeVisitor):
         termtypes = set([termtype])
 
         if isinstance(node, (Parameter, Localparam)):
-            msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
+            msb = DFIntConst('31') if node.width is None else self.makeBound(node.width.msb, scope)
         else:
-            msb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.msb, scope)
-        lsb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.lsb, scope)
+            msb = DFIntConst('0') if node.width is None else self.makeBound(node.width.msb, scope)
+        lsb = DFIntConst('0') if node.width is None else self.makeBound(node.width.lsb, scope)
 
         dims = None
         if node.dimensions is not None:
             dims = []
             for length in node.dimensions.lengths:
-                l = self.makeDFTree(length.msb, scope)
-                r = self.makeDFTree(length.lsb, scope)
+                l = self.makeBound(length.msb, scope)
+                r = self.makeBound(length.lsb, scope)
                 dims.append((l, r))
             dims = tuple(dims)
 
@@ -887,6 +887,10 @@ class BindVisitor(NodeVisitor):
         self.dataflow.addTerm(name, term)
         self.setConstantTerm(name, term)
 
+    def makeBound(self, node, scope):
+        # the index of a generate loop has its value of the iteration
+        return self.resolveBlockingAssign(self.makeDFTree(node, scope), scope)
+
     def addBind(self, left, right, alwaysinfo=None, bindtype=None):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
             return
-- 
2.43.0


From 16dee8bbe88e29b3fc063b08a30fa4c5cdec03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:54 +0000
Subject: [PATCH 74/88] fix: supply nets without a range have one bit

---
 pyverilog/dataflow/bindvisitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 0b98681..6546acf 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -867,7 +867,7 @@ class BindVisitor(NodeVisitor):
             termtype = 'Task'
         termtypes = set([termtype])
 
-        if isinstance(node, (Parameter, Localparam)):
+        if isinstance(node, (Parameter, Localparam)) and not isinstance(node, Supply):
             msb = DFIntConst('31') if node.width is None else self.makeBound(node.width.msb, scope)
         else:
             msb = DFIntConst('0') if node.width is None else self.makeBound(node.width.msb, scope)
@@ -882,7 +882,8 @@ class BindVisitor(NodeVisitor):
                 dims.append((l, r))
             dims = tuple(dims)
 
-        has_range = node.width is not None or not isinstance(node, (Parameter, Localparam))
+        has_range = (node.width is not None or isinstance(node, Supply) or
+                     not isinstance(node, (Parameter, Localparam)))
         term = Term(name, termtypes, msb, lsb, dims, node.signed, has_range)
         self.dataflow.addTerm(name, term)
         self.setConstantTerm(name, term)
-- 
2.43.0


From eedd6e370236e52d9090919470c231181ca099cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:09 +0000
Subject: [PATCH 75/88] fix: classify the assignments of all kinds of signals
 in subsets

---
 pyverilog/dataflow/merge.py   | 4 ++--
 pyverilog/utils/signaltype.py | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 67a4adc..55f369b 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -70,8 +70,6 @@ class VerilogDataflowMerge(object):
         termtype = self.getTermtype(termname)
         if signaltype.isWire(termtype):
             return 'assign'
-        if signaltype.isWireArray(termtype):
-            return 'assign'
         if signaltype.isReg(termtype):
             if bind.isClockEdge():
                 return 'clockedge'
@@ -92,6 +90,8 @@ class VerilogDataflowMerge(object):
             return 'assign'
         if signaltype.isFunction(termtype):
             return 'assign'
+        if signaltype.isTri(termtype) or signaltype.isSupply(termtype):
+            return 'assign'
         if signaltype.isRename(termtype):
             return 'assign'
         if signaltype.isGenvar(termtype):
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index 4371c52..f99f591 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -39,6 +39,14 @@ def isReg(termtype):
     return isType(termtype, 'Reg')
 
 
+def isTri(termtype):
+    return isType(termtype, 'Tri')
+
+
+def isSupply(termtype):
+    return isType(termtype, 'Supply')
+
+
 def isInteger(termtype):
     return isType(termtype, 'Integer')
 
-- 
2.43.0


From ca773218358f0f1ab9c21c4bd428a9ab24dd436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:30 +0000
Subject: [PATCH 76/88] fix: subsets include the clocks of their registers

---
 pyverilog/dataflow/subset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 47df2d2..b06a11a 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -51,6 +51,7 @@ class VerilogSubset(VerilogDataflowMerge):
                 clock_name = bind.getClockName()
                 if clock_name != util.toTermname((self.topmodule, self.clock_name)):
                     r_binds, r_sources = self.getBindSubset(clock_name, nextsources)
+                    nextsources.add(clock_name)
                     nextsources |= r_sources
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
 
-- 
2.43.0


From 5250588b666dd4714702be04eef432a3533ed205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:18 +0000
Subject: [PATCH 77/88] fix: infer the states of comparisons with <=, < 0 and
 values that are no states

---
 pyverilog/controlflow/transition.py | 4 +++-
 pyverilog/utils/inference.py        | 5 ++---
 pyverilog/utils/signaltype.py       | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 084c113..3ac8c6b 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -274,7 +274,9 @@ def createStateNode(infval, width):
         minval = 0
     if maxval is None:
         maxval = util.maxValue(width)
-    ret = StateNode(((minval, maxval),), 0, util.maxValue(width), None)
+    maxval = min(maxval, util.maxValue(width))
+    range_pairs = ((minval, maxval),) if minval <= maxval else ()
+    ret = StateNode(range_pairs, 0, util.maxValue(width), None)
     if infval.inv:
         ret = notStateNodeList(ret)
     return ret
diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index d241360..066ca0e 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -31,8 +31,7 @@ def op_LessThan(val):
     minval = 0
     maxval = val - 1
     if maxval < 0:
-        minval = None
-        maxval = None
+        return InferredValue(None, None, inv=True)
     return InferredValue(minval, maxval)
 
 
@@ -42,7 +41,7 @@ def op_GreaterThan(val):
     return InferredValue(minval, maxval)
 
 
-def op_LassEq(val):
+def op_LessEq(val):
     minval = 0
     maxval = val
     return InferredValue(minval, maxval)
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index f99f591..b403d4e 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -93,7 +93,7 @@ def isReset(search_str):
 
 
 # Operator
-compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 not_ops = ('Ulnot', 'Unot')
 split_and_ops = ('And', 'Land')
 split_or_ops = ('Or', 'Lor')
-- 
2.43.0


From fcc418dc10f8b46fd5900e9e2777cdf41ef93c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:49 +0000
Subject: [PATCH 78/88] fix: contradicting state conditions give no transition

---
 pyverilog/controlflow/transition.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 3ac8c6b..cf22e9c 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -99,7 +99,8 @@ def notStateNodeList(node):
                 ret_node = n
             else:
                 ret_node = andStateNodeList(ret_node, n)
-        return ret_node
+        # the opposite of no state at all is any state
+        return ret_node if ret_node else StateNode(isany=True)
     return None
 
 
@@ -133,7 +134,9 @@ def andStateNodeList(lnode, rnode):
         return lnode
 
     if isStateNode(lnode) and isStateNode(rnode):
-        return andStateNode(lnode, rnode)
+        val = andStateNode(lnode, rnode)
+        # no state at all is an empty list, nothing to say is None
+        return val if val else StateNodeList()
     if isStateNodeList(lnode) and isStateNodeList(rnode):
         new_list = []
         for l in lnode.nodelist:
@@ -141,8 +144,6 @@ def andStateNodeList(lnode, rnode):
                 val = andStateNode(l, r)
                 if val:
                     new_list.append(val)
-        if len(new_list) == 0:
-            return None
         return StateNodeList(tuple(new_list))
     if isStateNodeList(lnode) and isStateNode(rnode):
         new_list = []
@@ -150,8 +151,6 @@ def andStateNodeList(lnode, rnode):
             val = andStateNode(l, rnode)
             if val:
                 new_list.append(val)
-        if len(new_list) == 0:
-            return None
         return StateNodeList(tuple(new_list))
     if isStateNode(lnode) and isStateNodeList(rnode):
         new_list = []
@@ -159,13 +158,13 @@ def andStateNodeList(lnode, rnode):
             val = andStateNode(lnode, r)
             if val:
                 new_list.append(val)
-        if len(new_list) == 0:
-            return None
         return StateNodeList(tuple(new_list))
     return None
 
 
 def notStateNode(node):
+    if node.isany and node.transcond is None:
+        return StateNodeList()
     if node.isany:
         new_transcond = _not_transcond(node.transcond)
         return StateNode(transcond=new_transcond, maxvalue=node.maxvalue, isany=True)
-- 
2.43.0


From f514ce55399ef45de4ca013d143f88ddc4231078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:49 +0000
Subject: [PATCH 79/88] fix: accept states compared with signals

---
 pyverilog/controlflow/transition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index cf22e9c..bd6251e 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -72,10 +72,10 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-    if isinstance(l, DFTerminal) and l.name == termname:
+    if isinstance(l, DFTerminal) and l.name == termname and isinstance(r, DFEvalValue):
         infval = inference.infer(cond.operator, r)
         return createStateNode(infval, termwidth)
-    if isinstance(r, DFTerminal) and r.name == termname:
+    if isinstance(r, DFTerminal) and r.name == termname and isinstance(l, DFEvalValue):
         new_op = re.sub('Greater', 'TMP', cond.operator)
         new_op = re.sub('Less', 'Greater', new_op)
         new_op = re.sub('TMP', 'Less', new_op)
-- 
2.43.0


From c5676cde1f317f9918c2461e9340d68978522e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:49 +0000
Subject: [PATCH 80/88] fix: registers that only copy an input or each other
 are no state machines

---
 pyverilog/controlflow/controlflow_analyzer.py | 6 ++++--
 pyverilog/dataflow/merge.py                   | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 0ebae8a..7765949 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -79,7 +79,9 @@ class VerilogControlflowAnalyzer(VerilogSubset):
                 fsm.construct(func.value, statenode)
         return fsm
 
-    def getFuncdict(self, termname, delaycnt=0):
+    def getFuncdict(self, termname, delaycnt=0, visited=()):
+        if termname in visited:
+            return {}, 0
         termtype = self.getTermtype(termname)
         if not self.isClockEdge(termname):
             return {}, 0
@@ -91,7 +93,7 @@ class VerilogControlflowAnalyzer(VerilogSubset):
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
             next_term = list(funcdict.values())[0]
             if isinstance(next_term, DFTerminal):
-                return self.getFuncdict(next_term.name, delaycnt + 1)
+                return self.getFuncdict(next_term.name, delaycnt + 1, visited + (termname,))
         return funcdict, delaycnt
 
     def isFsmVar(self, termname):
diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 55f369b..a8ff4ad 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -154,8 +154,8 @@ class VerilogDataflowMerge(object):
         raise verror.ImplementationError()
 
     def isClockEdge(self, termname, msb=None, lsb=None, ptr=None):
-        bind = self.binddict[termname]
-        return bind[0].isClockEdge()
+        bindlist = self.getBindlist(termname)
+        return len(bindlist) > 0 and bindlist[0].isClockEdge()
 
     def getSources(self, tree):
         if tree is None:
-- 
2.43.0


From 5d816ae28e968da87b8b189e73732b5a1bdf9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:53 +0000
Subject: [PATCH 81/88] fix: keep the meaning of bitwise and reduction
 operators in state conditions

---
 pyverilog/controlflow/transition.py | 37 +++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index bd6251e..cc3d703 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -45,10 +45,23 @@ def walkCond(cond, termname, termwidth=32):
 
 
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
-    node = walkCond(cond.nextnodes[0], termname, termwidth)
-    if signaltype.isNot(cond.operator):
-        node = notStateNodeList(node)
-    return node
+    child = cond.nextnodes[0]
+    if cond.operator == 'Ulnot' or (signaltype.isNot(cond.operator) and isTruthValue(child)):
+        return notStateNodeList(walkCond(child, termname, termwidth))
+    # the operators of bits say more of the operand than that it is not 0
+    maxvalue = util.maxValue(termwidth)
+    return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
+
+
+def isTruthValue(node):
+    """ 0 or 1, not a vector of bits """
+    if not isinstance(node, DFOperator):
+        return False
+    if signaltype.isCompare(node.operator) or node.operator in ('Ulnot', 'Land', 'Lor'):
+        return True
+    if node.operator in ('Unot', 'And', 'Or', 'Xor', 'Xnor'):
+        return all(isTruthValue(n) for n in node.nextnodes)
+    return len(node.nextnodes) == 1 and node.operator not in ('Uminus', 'Uplus', 'Unot')
 
 
 def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
@@ -63,8 +76,17 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
         if ret:
             return ret
     if not signaltype.isCompare(cond.operator) and signaltype.isAnd(cond.operator):
-        lnode = walkCond(cond.nextnodes[0], termname, termwidth)
-        rnode = walkCond(cond.nextnodes[1], termname, termwidth)
+        left, right = cond.nextnodes
+        if cond.operator == 'And':
+            # of a vector, only the bit that meets the truth value counts
+            if not isTruthValue(left) and not isTruthValue(right):
+                return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
+            if not isTruthValue(left):
+                left = DFOperator((left, DFEvalValue(1)), 'And')
+            if not isTruthValue(right):
+                right = DFOperator((right, DFEvalValue(1)), 'And')
+        lnode = walkCond(left, termname, termwidth)
+        rnode = walkCond(right, termname, termwidth)
         ret = andStateNodeList(lnode, rnode)
         if ret:
             return ret
@@ -260,7 +282,8 @@ def _not_transcond(transcond):
         return None
     elif isinstance(transcond, DFOperator) and transcond.operator == 'Ulnot':
         return transcond.nextnodes[0]
-    elif isinstance(transcond, DFOperator) and transcond.operator == 'Unot':
+    elif (isinstance(transcond, DFOperator) and transcond.operator == 'Unot' and
+          isTruthValue(transcond.nextnodes[0])):
         return transcond.nextnodes[0]
     return DFOperator((transcond,), 'Ulnot')
 
-- 
2.43.0


From e4c52d444693291303eedb9b686cf3d892b3e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:27 +0000
Subject: [PATCH 82/88] fix: report every loop of a state machine once

---
 pyverilog/controlflow/controlflow_analyzer.py | 34 ++++++-------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 7765949..233ba8f 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -253,23 +253,12 @@ class FiniteStateMachine(object):
 
     def get_loop(self):
         loops = set([])
-        loop_node_cnt = {}
+        done = set([])
         for k in sorted(self.fsm.keys()):
-            if not k in self.fsm:
-                continue
-            if not k in loop_node_cnt:
-                loop_node_cnt[k] = 0
-            if loop_node_cnt[k] >= len(self.fsm[k].values()):
-                continue
-            paths = self.get_looppath(k)
-            for path in paths:
-                rotated = self.rotate(path)
-                if rotated not in loops:
-                    loops.add(rotated)
-                    for r in rotated:
-                        if not r in loop_node_cnt:
-                            loop_node_cnt[r] = 0
-                        loop_node_cnt[r] += 1
+            # the remaining loops do not visit the states before k
+            for path in self.get_looppath(k, done):
+                loops.add(self.rotate(path))
+            done.add(k)
         return loops
 
     def rotate(self, path):
@@ -277,21 +266,20 @@ class FiniteStateMachine(object):
         minval_pos = path.index(minval)
         return path[minval_pos:] + path[:minval_pos]
 
-    def get_looppath(self, src):
+    def get_looppath(self, src, ignored=()):
         paths = set([])
         if not src in self.fsm:
             return paths
-        nextnodes = set(self.fsm[src].values())
+        ignored = set(ignored)
+        nextnodes = set(self.fsm[src].values()) - ignored
         for n in nextnodes:
-            r = self._looppath(src, n, visited=set([n]))
+            r = self._looppath(src, n, visited=ignored | set([n]))
             if len(r) > 0:
                 paths |= r
         return paths
 
-    def _looppath(self, src, node, visited, cnt=0):
+    def _looppath(self, src, node, visited):
         paths = set([])
-        if cnt > 50:
-            return paths
         if src == node:
             paths.add((src,))
             return paths
@@ -299,7 +287,7 @@ class FiniteStateMachine(object):
             return paths
         nextnodes = set(self.fsm[node].values()) - visited
         for n in nextnodes:
-            r = self._looppath(src, n, visited=visited | set([node]), cnt=cnt + 1)
+            r = self._looppath(src, n, visited=visited | set([n]))
             if len(r) > 0:
                 for np in r:
                     paths.add((node,) + np)
-- 
2.43.0


From 33e8131f11ab99b4292f97d075a9436cbe537554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:05 +0000
Subject: [PATCH 83/88] fix: report active conditions of signals with a single
 unconditional assignment

---
 pyverilog/controlflow/active_analyzer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index 273f3cc..d24d7a4 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -33,7 +33,6 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
         funcdict = splitter.remove_reset_condition(funcdict)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
-            func = funcdict.values()[0]
             return {termname: (('any', None), )}
 
         active_conditions = {}
-- 
2.43.0


From 51b1deffdc4c09aaafe8741a3774642ac0412614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:58 +0000
Subject: [PATCH 84/88] fix: values assigned by the reset are no active
 conditions

---
 pyverilog/controlflow/active_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index d24d7a4..d171310 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -29,8 +29,8 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
             return {}
         tree = self.makeTree(termname)
         funcdict = splitter.split(tree)
-        funcdict = splitter.filter(funcdict, termname, condition)
         funcdict = splitter.remove_reset_condition(funcdict)
+        funcdict = splitter.filter(funcdict, termname, condition)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
             return {termname: (('any', None), )}
-- 
2.43.0


From c78b158ff8d76ae0b33a12e8e5c058030d74b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:53 +0000
Subject: [PATCH 85/88] fix: gates drive all their outputs, arrays of gates
 take the bits of their terminals

---
 pyverilog/dataflow/bindvisitor.py | 37 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 6546acf..83da1cf 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -191,21 +191,32 @@ class BindVisitor(NodeVisitor):
 
     def _visit_Instance_primitive(self, node, arrayindex=None):
         primitive_type = primitives[node.module]
-        left = node.portlist[0].argname
-        if arrayindex is not None:
-            left = Pointer(left, IntConst(str(arrayindex)))
-        right = None
-        if primitive_type == None:
-            right = (Pointer(node.portlist[1].argname, IntConst('0')) if arrayindex is None else
-                     Pointer(node.portlist[1].argname, IntConst(str(arrayindex))))
+        args = [p.argname for p in node.portlist]
+        # not and buf have one input, the others one output
+        num_outputs = len(args) - 1 if primitive_type in (None, Unot) else 1
+        inputs = [self.getGateTerminal(arg, arrayindex) for arg in args[num_outputs:]]
+        if primitive_type is None:
+            right = inputs[0]
         elif primitive_type == Unot:
-            right = (Ulnot(Pointer(node.portlist[1].argname, IntConst('0'))) if arrayindex is None else
-                     Ulnot(Pointer(node.portlist[1].argname, IntConst(str(arrayindex)))))
+            right = Ulnot(inputs[0])
         else:
-            concat_list = ([Pointer(p.argname, IntConst('0')) for p in node.portlist[1:]] if arrayindex is None else
-                           [Pointer(p.argname, IntConst(str(arrayindex))) for p in node.portlist[1:]])
-            right = primitive_type(Concat(concat_list))
-        self.addBind(left, right, bindtype='assign')
+            right = primitive_type(Concat(inputs))
+        for arg in args[:num_outputs]:
+            left = arg if arrayindex is None else self.getGateTerminal(arg, arrayindex)
+            self.addBind(left, right, bindtype='assign')
+
+    def getGateTerminal(self, arg, arrayindex):
+        """an element of an array of gates gets its own bit of a vector"""
+        if arrayindex is None:
+            return Pointer(arg, IntConst('0'))
+        if isinstance(arg, Identifier):
+            argname = self.searchTerminal(arg.name, self.frames.getCurrent())
+            if argname is not None:
+                msb, lsb = self.getTermRange(argname)
+                if msb == lsb:
+                    return arg
+                arrayindex += lsb
+        return Pointer(arg, IntConst(str(arrayindex)))
 
     def visit_Initial(self, node):
         pass
-- 
2.43.0


From 6fb8bdde09fa6456be85154bd4e14f88990959d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:07 +0000
Subject: [PATCH 86/88] fix: terminals of gates that are single bits are not
 selected again

---
 pyverilog/dataflow/bindvisitor.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 83da1cf..a954349 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -206,17 +206,20 @@ class BindVisitor(NodeVisitor):
             self.addBind(left, right, bindtype='assign')
 
     def getGateTerminal(self, arg, arrayindex):
-        """an element of an array of gates gets its own bit of a vector"""
-        if arrayindex is None:
-            return Pointer(arg, IntConst('0'))
-        if isinstance(arg, Identifier):
-            argname = self.searchTerminal(arg.name, self.frames.getCurrent())
-            if argname is not None:
+        """a gate gets one bit of a vector, an element of an array of gates its own one"""
+        index = 0 if arrayindex is None else arrayindex
+        var = arg.var if isinstance(arg, Pointer) else arg
+        if isinstance(var, Identifier):
+            argname = self.searchTerminal(var.name, self.frames.getCurrent())
+            if argname is not None and isinstance(arg, Pointer):
+                if self.getTermDims(argname) is None:
+                    return arg
+            elif argname is not None:
                 msb, lsb = self.getTermRange(argname)
-                if msb == lsb:
+                if arrayindex is not None and msb == lsb:
                     return arg
-                arrayindex += lsb
-        return Pointer(arg, IntConst(str(arrayindex)))
+                index += lsb
+        return Pointer(arg, IntConst(str(index)))
 
     def visit_Initial(self, node):
         pass
-- 
2.43.0


From 60dd1384af62fc64ca73acf329db6e0b28d56884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:07 +0000
Subject: [PATCH 87/88] fix: reorder selections at a conditional position

---
 pyverilog/dataflow/reorder.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index 7a891d3..4829d13 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -60,8 +60,11 @@ def reorder(tree):
         resolved_msb = reorder(tree.msb)
         resolved_lsb = reorder(tree.lsb)
         resolved_var = reorder(tree.var)
-        if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
-            raise verror.FormatError('MSB and LSB should not be DFBranch')
+        for bound in (resolved_msb, resolved_lsb):
+            if isinstance(bound, DFBranch):
+                return DFBranch(bound.condnode,
+                                selectWhen(bound.condnode, 'truenode', resolved_var, resolved_msb, resolved_lsb),
+                                selectWhen(bound.condnode, 'falsenode', resolved_var, resolved_msb, resolved_lsb))
         if isinstance(resolved_var, DFBranch):
             return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
@@ -136,6 +139,14 @@ def insertPartselect(var, msb, lsb):
     return DFPartselect(var, msb, lsb)
 
 
+def selectWhen(cond, side, var, msb, lsb):
+    """the part selected while the bounds take one side of a condition"""
+    msb, lsb = [getattr(b, side) if isinstance(b, DFBranch) and b.condnode == cond else b for b in (msb, lsb)]
+    if msb is None or lsb is None:
+        return None
+    return reorder(DFPartselect(var, msb, lsb))
+
+
 def insertPointer(var, ptr):
     if isinstance(var, DFBranch):
         return DFBranch(var.condnode, insertPointer(var.truenode, ptr), insertPointer(var.falsenode, ptr))
-- 
2.43.0


From c274e4769c2ec91082fb43be1c69d82f6e3e10da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:07 +0000
Subject: [PATCH 88/88] fix: code of bits of an expression and of genvars is
 legal Verilog

---
 pyverilog/dataflow/dataflow.py | 35 ++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 34473c4..0d703d9 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -249,6 +249,33 @@ class DFOperator(DFNotTerminal):
         return hash((self.operator, tuple(self.nextnodes)))
 
 
+def _bit_position(node):
+    """value of a constant bound, None if it is not constant"""
+    if isinstance(node, DFOperator) and node.operator in ('Plus', 'Minus'):
+        left, right = [_bit_position(n) for n in node.nextnodes]
+        if left is None or right is None:
+            return None
+        return left + right if node.operator == 'Plus' else left - right
+    if isinstance(node, (DFIntConst, DFEvalValue)):
+        return node.eval()
+    return None
+
+
+def _selected_bits(var, msb, lsb, dest):
+    """code of selected bits of an expression, which cannot be followed by a range"""
+    if isinstance(var, DFTerminal) or (isinstance(var, DFPointer) and isinstance(var.var, DFTerminal)):
+        return None
+    code = var.tocode(dest)
+    if msb == lsb:
+        return '(|((' + code + '>>' + lsb.tocode(dest) + ")&1'd1))"
+    msb = _bit_position(msb)
+    lsb = _bit_position(lsb)
+    if msb is None or lsb is None:
+        return None
+    bits = ['(|((' + code + '>>' + str(i) + ")&1'd1))" for i in range(msb, lsb - 1, -1)]
+    return bits[0] if len(bits) == 1 else '{' + ','.join(bits) + '}'
+
+
 class DFPartselect(DFNotTerminal):
     attr_names = ()
 
@@ -269,6 +296,9 @@ class DFPartselect(DFNotTerminal):
         return ret
 
     def tocode(self, dest='dest'):
+        bits = _selected_bits(self.var, self.msb, self.lsb, dest)
+        if bits is not None:
+            return bits
         ret = self.var.tocode(dest)
         msbcode = self.msb.tocode(dest)
         lsbcode = self.lsb.tocode(dest)
@@ -316,6 +346,9 @@ class DFPointer(DFNotTerminal):
         return ret
 
     def tocode(self, dest='dest'):
+        bits = _selected_bits(self.var, self.ptr, self.ptr, dest)
+        if bits is not None:
+            return bits
         ret = self.var.tocode(dest)
         ret += '[' + self.ptr.tocode(dest) + ']'
         return ret
@@ -761,6 +794,8 @@ class Term(object):
             code += 'wire '
         if signaltype.isRename(self.termtype):
             code += 'wire '
+        if signaltype.isGenvar(self.termtype):
+            code += 'wire '
 
         if (not signaltype.isInteger(self.termtype)
                 and self.msb is not None and self.lsb is not None):
-- 
2.43.0

