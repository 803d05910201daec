From 1ce23c076639b2be8827b1933b404b45b808910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 001/131] fix: Port.children() also yields the dimensions

---
 pyverilog/vparser/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index df288ed..6ba499d 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -173,6 +173,8 @@ class Port(Node):
         nodelist = []
         if self.width:
             nodelist.append(self.width)
+        if self.dimensions:
+            nodelist.append(self.dimensions)
         return tuple(nodelist)
 
 
-- 
2.43.0


From 706a077404fce8f506b2e780b2bc5a175b1d493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 002/131] fix: Node.__eq__ compares the number of children (no
 IndexError, no prefix match)

---
 pyverilog/vparser/ast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index 6ba499d..b644483 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -62,9 +62,13 @@ class Node(object):
         if self_attrs != other_attrs:
             return False
 
+        self_children = self.children()
         other_children = other.children()
 
-        for i, c in enumerate(self.children()):
+        if len(self_children) != len(other_children):
+            return False
+
+        for i, c in enumerate(self_children):
             if c != other_children[i]:
                 return False
 
-- 
2.43.0


From de37553269628774398eef9a068bba207f17108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 003/131] fix: EmbeddedCode keeps its line number

---
 pyverilog/vparser/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index b644483..4537479 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -1291,6 +1291,7 @@ class EmbeddedCode(Node):
     attr_names = ('code',)
 
     def __init__(self, code, lineno=0):
+        self.lineno = lineno
         self.code = code
 
     def children(self):
-- 
2.43.0


From 4ea9e2b86caa43e5f1a66b37c45a40e7c66f208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 004/131] fix: DFDelay equality and hash use its own operand

---
 pyverilog/dataflow/dataflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index da85be2..1aff55d 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -636,10 +636,10 @@ class DFDelay(DFNotTerminal):
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        return self.nextnodes == other.nextnodes
+        return self.nextnode == other.nextnode
 
     def __hash__(self):
-        return hash(tuple(self.nextnodes))
+        return hash(self.nextnode)
 
 
 class DFSyscall(DFNotTerminal):
-- 
2.43.0


From 94d5b0ab1423709298829a7d4e688b2436cc1698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 005/131] fix: Term is hashable (its type is a set)

---
 pyverilog/dataflow/dataflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 1aff55d..a7c0cbf 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -724,7 +724,8 @@ class Term(object):
                 and self.dims == other.dims)
 
     def __hash__(self):
-        return hash((self.name, self.termtype, self.msb, self.lsb, self.dims))
+        return hash((self.name, frozenset(self.termtype), self.msb, self.lsb,
+                     self.dims))
 
     def getScope(self, termname):
         return termname[:-1]
-- 
2.43.0


From 58f5327cee499c9ea94769ce27db4dac020a60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 006/131] fix: every statement has an end line (if/always over
 for, while, fork, wait, forever, @ raised AttributeError)

---
 pyverilog/vparser/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0de0264..d6aa7dc 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1569,11 +1569,13 @@ class VerilogParser(object):
         'parallelblock : FORK block_statements JOIN'
         p[0] = ParallelBlock(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(3)
 
     def p_parallelblock_empty(self, p):
         'parallelblock : FORK JOIN'
         p[0] = ParallelBlock((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_if_statement(self, p):
@@ -1625,6 +1627,7 @@ class VerilogParser(object):
         'for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement'
         p[0] = ForStatement(p[3], p[4], p[5], p[7], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[7].end_lineno
 
     def p_forpre(self, p):
         'forpre : blocking_substitution'
@@ -1665,6 +1668,7 @@ class VerilogParser(object):
         'while_statement : WHILE LPAREN cond RPAREN whilecontent_statement'
         p[0] = WhileStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno
 
     def p_whilecontent_statement(self, p):
         'whilecontent_statement : basic_statement'
@@ -1745,14 +1749,16 @@ class VerilogParser(object):
     # --------------------------------------------------------------------------
     def p_event_statement(self, p):
         'event_statement : senslist SEMICOLON'
-        p[0] = EventStatement(p[1], lineno=p.lineno(1))
-        p.set_lineno(0, p.lineno(1))
+        p[0] = EventStatement(p[1], lineno=p.lineno(1) or p.lineno(2))
+        p.set_lineno(0, p.lineno(1) or p.lineno(2))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_wait_statement(self, p):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(5) if p[5] is None else p[5].end_lineno
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
@@ -1769,6 +1775,7 @@ class VerilogParser(object):
         'forever_statement : FOREVER basic_statement'
         p[0] = ForeverStatement(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[2].end_lineno
 
     # --------------------------------------------------------------------------
     def p_instance(self, p):
-- 
2.43.0


From c233425ac1ede761e7b3b3c03636cf5710c54ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 007/131] fix: integer signed declares the listed names

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index d6aa7dc..ca1d2d2 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -700,7 +700,7 @@ class VerilogParser(object):
                                  lineno=p.lineno(3)),
                            signed=True,
                            value=rvalue,
-                           lineno=p.lineno(3)) for rname, rvalue in p[2]]
+                           lineno=p.lineno(3)) for rname, rvalue in p[3]]
         p[0] = Decl(tuple(intlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
-- 
2.43.0


From 1c4ac04457004b7fb937662d0476dc83dc88cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 008/131] fix: real declares each listed name

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index ca1d2d2..b9ef17b 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -727,7 +727,7 @@ class VerilogParser(object):
     # Real
     def p_realdecl(self, p):
         'realdecl : REAL realnamelist SEMICOLON'
-        reallist = [Real(p[1],
+        reallist = [Real(r,
                          Width(msb=IntConst('31', lineno=p.lineno(2)),
                                lsb=IntConst('0', lineno=p.lineno(2)),
                                lineno=p.lineno(2)),
-- 
2.43.0


From fa37f393b753c0afade347ffca465a8b86a98410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 009/131] fix: a delayed declaration assignment declares the
 signal, not its delay

---
 pyverilog/vparser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index b9ef17b..340a0de 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -674,9 +674,9 @@ class VerilogParser(object):
 
     def p_declassign_element_delay(self, p):
         'declassign_element : delays ID EQUALS delays rvalue'
-        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(1)), lineno=p.lineno(2)),
+        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(2)), lineno=p.lineno(2)),
                         p[5], p[1], p[4], lineno=p.lineno(2))
-        p[0] = (p[1], assign)
+        p[0] = (p[2], assign)
         p.set_lineno(0, p.lineno(2))
 
     # Integer
-- 
2.43.0


From dffc28aebf065f0327bcc39678ef059841d25f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 010/131] fix: a port continuing a declaration inherits
 direction, kind, width and sign of the port before it

---
 pyverilog/vparser/parser.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 340a0de..06c2416 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -339,26 +339,13 @@ class VerilogParser(object):
     def p_ioports(self, p):
         'ioports : ioports COMMA ioport'
         if isinstance(p[3], str):
-            t = None
-            for r in reversed(p[1]):
-                if isinstance(r.first, Input):
-                    t = Ioport(Input(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and r.second is None:
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and isinstance(r.second, Reg):
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               Reg(name=p[3], width=r.first.width,
+            first, second = p[1][-1].first, p[1][-1].second
+            t = Ioport(type(first)(name=p[3], width=first.width, signed=first.signed,
                                    lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Inout):
-                    t = Ioport(Inout(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
+                       None if second is None else
+                       type(second)(name=p[3], width=second.width, signed=second.signed,
+                                    lineno=p.lineno(3)),
+                       lineno=p.lineno(3))
             p[0] = p[1] + (t,)
         else:
             p[0] = p[1] + (p[3],)
-- 
2.43.0


From 4829847c77da822d4330e977dc4a03392aec82f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 011/131] fix: indexed part selects select [base+width-1:base]
 and [base:base-width+1]

---
 pyverilog/vparser/parser.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 06c2416..d2a203d 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -836,6 +836,16 @@ class VerilogParser(object):
         p[0].end_lineno = p.lineno(7)
 
     # --------------------------------------------------------------------------
+    def create_partselect_plus(self, var, base, width, lineno=0):
+        # var[base +: width] is var[base + (width - 1) : base]
+        offset = Minus(width, IntConst('1', lineno=lineno), lineno=lineno)
+        return Partselect(var, Plus(base, offset, lineno=lineno), base, lineno=lineno)
+
+    def create_partselect_minus(self, var, base, width, lineno=0):
+        # var[base -: width] is var[base : base - (width - 1)]
+        offset = Minus(width, IntConst('1', lineno=lineno), lineno=lineno)
+        return Partselect(var, base, Minus(base, offset, lineno=lineno), lineno=lineno)
+
     def p_lpartselect_lpointer(self, p):
         'lpartselect : pointer LBRACKET expression COLON expression RBRACKET'
         p[0] = Partselect(p[1], p[3], p[5], lineno=p.lineno(1))
@@ -843,12 +853,12 @@ class VerilogParser(object):
 
     def p_lpartselect_lpointer_plus(self, p):
         'lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_partselect_plus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_lpointer_minus(self, p):
         'lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_partselect_minus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect(self, p):
@@ -858,12 +868,12 @@ class VerilogParser(object):
 
     def p_lpartselect_plus(self, p):
         'lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_partselect_plus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_minus(self, p):
         'lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_partselect_minus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpointer(self, p):
@@ -1204,14 +1214,12 @@ class VerilogParser(object):
 
     def p_partselect_plus(self, p):
         'partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_partselect_plus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_minus(self, p):
         'partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_partselect_minus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer(self, p):
@@ -1221,14 +1229,12 @@ class VerilogParser(object):
 
     def p_partselect_pointer_plus(self, p):
         'partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_partselect_plus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer_minus(self, p):
         'partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_partselect_minus(p[1], p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_pointer(self, p):
-- 
2.43.0


From 80627434aca2f5b1a472462775ca19ffbd35c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 012/131] fix: unique case keeps its expression and items (they
 were taken from the wrong positions)

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index d2a203d..6a26326 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1689,7 +1689,7 @@ class VerilogParser(object):
 
     def p_unique_case_statement(self, p):
         'unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE'
-        p[0] = UniqueCaseStatement(p[3], p[5], lineno=p.lineno(1))
+        p[0] = UniqueCaseStatement(p[4], p[6], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(7)
 
-- 
2.43.0


From 5022d3b2bc15cbdca19d04a08f66f12b92dd3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 013/131] fix: a signed binary number may start with X

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8fe6628..58587a3 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -181,7 +181,7 @@ class VerilogLexer(object):
     t_DOLLER = r'\$'
 
     bin_number = '[0-9]*\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
-    signed_bin_number = '[0-9]*\'[sS][bB][0-1xZzZ?][0-1xXzZ?_]*'
+    signed_bin_number = '[0-9]*\'[sS][bB][0-1xXzZ?][0-1xXzZ?_]*'
     octal_number = '[0-9]*\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
     signed_octal_number = '[0-9]*\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
     hex_number = '[0-9]*\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-- 
2.43.0


From 0e9dbfdceb8f4fe76edc6fe0a0f60234eba7c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 014/131] fix: generate code for the arithmetic left shift (the
 operator was lost)

---
 pyverilog/ast_code_generator/codegen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9b87569..5ae4b7c 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -491,12 +491,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rorder = op2order(node.right.__class__.__name__)
         left = self.visit(node.left)
         right = self.visit(node.right)
-        if ((not isinstance(node.left, (Sll, Srl, Sra,
+        if ((not isinstance(node.left, (Sll, Srl, Sla, Sra,
                                         LessThan, GreaterThan, LessEq, GreaterEq,
                                         Eq, NotEq, Eql, NotEql))) and
                 (lorder is not None and lorder <= order)):
             left = del_paren(left)
-        if ((not isinstance(node.right, (Sll, Srl, Sra,
+        if ((not isinstance(node.right, (Sll, Srl, Sla, Sra,
                                          LessThan, GreaterThan, LessEq, GreaterEq,
                                          Eq, NotEq, Eql, NotEql))) and
                 (rorder is not None and order > rorder)):
@@ -574,6 +574,9 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Srl(self, node):
         return self.visit_Operator(node)
 
+    def visit_Sla(self, node):
+        return self.visit_Operator(node)
+
     def visit_Sra(self, node):
         return self.visit_Operator(node)
 
-- 
2.43.0


From a8f348c57ac24eedca29701b8498861d660c6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 015/131] fix: unary plus has an operator mark and is written
 by the code generator

---
 pyverilog/ast_code_generator/template/uplus.txt | 2 +-
 pyverilog/utils/op2mark.py                      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/template/uplus.txt b/pyverilog/ast_code_generator/template/uplus.txt
index 89d5ca7..15edcb1 100644
--- a/pyverilog/ast_code_generator/template/uplus.txt
+++ b/pyverilog/ast_code_generator/template/uplus.txt
@@ -1 +1 @@
-({{ right }})
+({{ op }}{{ right }})
diff --git a/pyverilog/utils/op2mark.py b/pyverilog/utils/op2mark.py
index e97c2da..d423d86 100644
--- a/pyverilog/utils/op2mark.py
+++ b/pyverilog/utils/op2mark.py
@@ -8,7 +8,7 @@
 # -------------------------------------------------------------------------------
 
 operator_mark = {
-    'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&',
+    'Uplus': '+', 'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&',
     'Uor': '|', 'Unor': '~|', 'Uxor': '^', 'Uxnor': '~^',
     'Power': '**', 'Times': '*', 'Divide': '/', 'Mod': '%',
     'Plus': '+', 'Minus': '-',
@@ -27,7 +27,7 @@ def op2mark(op):
 
 
 operator_order = {
-    'Uminus': 0, 'Ulnot': 0, 'Unot': 0, 'Uand': 0, 'Unand': 0,
+    'Uplus': 0, 'Uminus': 0, 'Ulnot': 0, 'Unot': 0, 'Uand': 0, 'Unand': 0,
     'Uor': 0, 'Unor': 0, 'Uxor': 0, 'Uxnor': 0,
     'Power': 1,
     'Times': 2, 'Divide': 2, 'Mod': 2,
-- 
2.43.0


From 2d698736b654fd9d24a3a2c3510887405c64431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 016/131] fix: generate code for casez and unique case

---
 pyverilog/ast_code_generator/codegen.py                     | 6 ++++++
 pyverilog/ast_code_generator/template/casezstatement.txt    | 5 +++++
 .../ast_code_generator/template/uniquecasestatement.txt     | 5 +++++
 3 files changed, 16 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/casezstatement.txt
 create mode 100644 pyverilog/ast_code_generator/template/uniquecasestatement.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 5ae4b7c..afe3399 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -773,6 +773,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CasexStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CasexStatement(node)
+
     def visit_Case(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/casezstatement.txt b/pyverilog/ast_code_generator/template/casezstatement.txt
new file mode 100644
index 0000000..4a897b1
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/casezstatement.txt
@@ -0,0 +1,5 @@
+casez({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
diff --git a/pyverilog/ast_code_generator/template/uniquecasestatement.txt b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
new file mode 100644
index 0000000..88ec8f8
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
@@ -0,0 +1,5 @@
+unique case({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
-- 
2.43.0


From f9de785a520096e89277b19909d743263ac9f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 017/131] fix: generate code for always_ff, always_comb and
 always_latch

---
 pyverilog/ast_code_generator/codegen.py               | 9 +++++++++
 pyverilog/ast_code_generator/template/alwayscomb.txt  | 3 +++
 pyverilog/ast_code_generator/template/alwaysff.txt    | 3 +++
 pyverilog/ast_code_generator/template/alwayslatch.txt | 3 +++
 4 files changed, 18 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/alwayscomb.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwaysff.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwayslatch.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index afe3399..294387f 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -658,6 +658,15 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
new file mode 100644
index 0000000..5616e92
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -0,0 +1,3 @@
+
+always_comb {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
new file mode 100644
index 0000000..11860f0
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -0,0 +1,3 @@
+
+always_ff @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
new file mode 100644
index 0000000..bab6087
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -0,0 +1,3 @@
+
+always_latch {{ statement }}
+
-- 
2.43.0


From b681ac27d1673cf0ddcfcb460ce86f9cd4018685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 018/131] fix: generate code for supply0 and supply1

---
 pyverilog/ast_code_generator/codegen.py          | 12 ++++++++++++
 pyverilog/ast_code_generator/template/supply.txt |  1 +
 2 files changed, 13 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/supply.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 294387f..2b21bb5 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -335,6 +335,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Supply(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'name': escape(node.name),
+            'value': self.visit(node.value),
+            'width': '' if node.width is None else self.visit(node.width),
+            'signed': node.signed,
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Integer(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/supply.txt b/pyverilog/ast_code_generator/template/supply.txt
new file mode 100644
index 0000000..7500dc9
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/supply.txt
@@ -0,0 +1 @@
+supply{{ value }} {% if signed %}signed {% endif %}{% if width != '' %}{{ width }} {% endif %}{{ name }};
-- 
2.43.0


From 927e597fb285e1b4659d0aaaa3c6a15018cf27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 019/131] fix: the disable statement is written with its
 keyword

---
 pyverilog/ast_code_generator/template/disable.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/disable.txt b/pyverilog/ast_code_generator/template/disable.txt
index a0a9ae8..1752fde 100644
--- a/pyverilog/ast_code_generator/template/disable.txt
+++ b/pyverilog/ast_code_generator/template/disable.txt
@@ -1 +1 @@
-diable {{ name }}
+disable {{ name }}
-- 
2.43.0


From 5567452667605c7b4be0b3b9e11dc8c7577e902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 020/131] fix: a for statement without initialisation keeps its
 semicolon

---
 pyverilog/ast_code_generator/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 2b21bb5..d463637 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -756,7 +756,7 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
+            'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(self.visit(node.post).replace(';', '')),
             'statement': '' if node.statement is None else self.visit(node.statement),
-- 
2.43.0


From e1677584daea7230b65d53364198e06787c10c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 021/131] fix: del_space keeps the spaces that separate tokens

---
 pyverilog/ast_code_generator/codegen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index d463637..a086280 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -96,7 +96,9 @@ def del_paren(s):
 
 
 def del_space(s):
-    return s.replace(' ', '')
+    # the spaces ending an escaped identifier, in a string and between '& &' or '| |' are significant
+    return re.sub(r'(\\\S+ |"(?:[^"\\]|\\.)*"|(?<=&) (?=&)|(?<=\|) (?=\|))| ',
+                  lambda m: m.group(1) or '', s)
 
 
 class ASTCodeGenerator(ConvertVisitor):
-- 
2.43.0


From 1356f6a3cb0e446d93e5e2412ba29d7f77347b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 022/131] fix: a continuous assignment keeps its delays in
 generated code

---
 pyverilog/ast_code_generator/codegen.py          | 2 ++
 pyverilog/ast_code_generator/template/assign.txt | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index a086280..0d26df5 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -657,6 +657,8 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'left': self.visit(node.left),
             'right': self.visit(node.right),
+            'ldelay': '' if node.ldelay is None else self.visit(node.ldelay),
+            'rdelay': '' if node.rdelay is None else self.visit(node.rdelay),
         }
         rslt = template.render(template_dict)
         rslt = indent_multiline_assign(rslt)
diff --git a/pyverilog/ast_code_generator/template/assign.txt b/pyverilog/ast_code_generator/template/assign.txt
index 86c1391..233f2e2 100644
--- a/pyverilog/ast_code_generator/template/assign.txt
+++ b/pyverilog/ast_code_generator/template/assign.txt
@@ -1 +1 @@
-assign {{ left }} = {{ right }};
+assign {% if ldelay != '' %}{{ ldelay }} {% endif %}{{ left }} = {% if rdelay != '' %}{{ rdelay }} {% endif %}{{ right }};
-- 
2.43.0


From e5656ab60b4d684e4c335967c3894c7b87b76f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 023/131] fix: an integer declaration keeps its initial value
 in generated code

---
 pyverilog/ast_code_generator/codegen.py           | 1 +
 pyverilog/ast_code_generator/template/integer.txt | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 0d26df5..8c339f1 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -355,6 +355,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'name': escape(node.name),
             'signed': node.signed,
+            'value': '' if node.value is None else self.visit(node.value),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/integer.txt b/pyverilog/ast_code_generator/template/integer.txt
index 4f9e337..a3191c8 100644
--- a/pyverilog/ast_code_generator/template/integer.txt
+++ b/pyverilog/ast_code_generator/template/integer.txt
@@ -1 +1 @@
-integer {{ name }};
+integer {{ name }}{% if value != '' %} = {{ value }}{% endif %};
-- 
2.43.0


From beef27c76f88db09bcc794377645374cf92fc85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 024/131] fix: a parameter list separates the parameters
 declared after one keyword

---
 pyverilog/ast_code_generator/codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 8c339f1..44a0ca7 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -150,7 +150,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).replace(';', '') for param in node.params]
+        params = []
+        for param in node.params:
+            for p in (param.list if isinstance(param, Decl) else (param,)):
+                params.append(self.visit(p).replace(';', ''))
         template_dict = {
             'params': params,
             'len_params': len(params),
-- 
2.43.0


From 77dffa4f2e6d7d68cff5e0a9155cc5723b7f2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 025/131] fix: a delay expression is parenthesised in generated
 code

---
 pyverilog/ast_code_generator/codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 44a0ca7..6a93fe1 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -874,8 +874,11 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_DelayStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        delay = self.visit(node.delay)
+        if not isinstance(node.delay, (Identifier, Constant)) and not delay.startswith('('):
+            delay = '(' + delay + ')'
         template_dict = {
-            'delay': self.visit(node.delay),
+            'delay': delay,
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 2907047c8dfa5adb500d154abf949533c7b427d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 026/131] fix: an earlier assignment is kept where a later
 conditional one does not apply

A nonblocking assignment made before a conditional statement was copied into
the condition's branches and there overrode the assignments made in between;
and the tree built so far was kept only beside the innermost condition.
---
 pyverilog/dataflow/bindvisitor.py | 54 ++++---------------------------
 1 file changed, 7 insertions(+), 47 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cb73857..0a58491 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -333,8 +333,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.true_statement is not None:
             self.visit(node.true_statement)
         self.frames.setCurrent(current)
@@ -353,8 +351,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.false_statement is not None:
             self.visit(node.false_statement)
         self.frames.setCurrent(current)
@@ -399,8 +395,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(self.frames.getCurrent())
 
         if case.statement is not None:
@@ -420,8 +414,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(current + ScopeLabel(label, 'if'))
 
         self._case(comp, caselist[1:], myframes)
@@ -647,24 +639,6 @@ class BindVisitor(NodeVisitor):
             self.dataflow.addTask(name, definition.getDefinition())
             self.dataflow.addTaskPorts(name, definition.getIOPorts())
 
-    def copyPreviousNonblockingAssign(self, scope):
-        assign = self.frames.getPreviousNonblockingAssign()
-        for name, bindlist in assign.items():
-            for bind in bindlist:
-                self.frames.addNonblockingAssign(name, bind)
-                msb = bind.msb
-                lsb = bind.lsb
-                ptr = bind.ptr
-                part_msb = None
-                part_lsb = None
-                condlist, flowlist = self.getCondflow(scope)
-                alwaysinfo = bind.alwaysinfo
-                raw_tree = bind.tree
-                new_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
-                                         raw_tree, condlist, flowlist,
-                                         alwaysinfo=alwaysinfo)
-                self.dataflow.addBind(name, new_bind)
-
     def copyBlockingAssigns(self, scope_copy_from, scope_copy_to):
         assign = self.frames.getBlockingAssignsScope(scope_copy_from)
         for name, bindlist in assign.items():
@@ -1501,10 +1475,7 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
-        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree)
-        if rest_flowlist and rest_tree is not None:
-            _rest_flowlist = rest_flowlist[:-1] + (not rest_flowlist[-1], )
-            add_tree = self.appendBranchTree(add_tree, _rest_flowlist, rest_tree)
+        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
@@ -1531,25 +1502,14 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
-    def makeBranchTree(self, condlist, flowlist, node):
+    def makeBranchTree(self, condlist, flowlist, node, rest=None):
+        # rest: the tree to keep wherever one of the conditions does not hold
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
-        if len(condlist) == 1:
-            if flowlist[0]:
-                return DFBranch(condlist[0], node, None)
-            else:
-                return DFBranch(condlist[0], None, node)
-        else:
-            if flowlist[0]:
-                return DFBranch(
-                    condlist[0],
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node),
-                    None)
-            else:
-                return DFBranch(
-                    condlist[0],
-                    None,
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node))
+        tree = self.makeBranchTree(condlist[1:], flowlist[1:], node, rest)
+        if flowlist[0]:
+            return DFBranch(condlist[0], tree, rest)
+        return DFBranch(condlist[0], rest, tree)
 
     def appendBranchTree(self, base, pos, tree):
         if len(pos) == 0:
-- 
2.43.0


From e0fe36e0b21f94db36bd5c5f9d9f6f06f1df0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 027/131] fix: casez and unique case are analyzed as case
 statements

---
 pyverilog/dataflow/bindvisitor.py   | 6 ++++++
 pyverilog/dataflow/signalvisitor.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 0a58491..d8fa3b1 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -371,6 +371,12 @@ class BindVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist, myframes):
         if len(caselist) == 0:
             return
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2d5251..e55842d 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -231,6 +231,12 @@ class SignalVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist):
         if len(caselist) == 0:
             return
-- 
2.43.0


From 6e735a59ba86e6f9be0c0fa2455d38af448370e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 028/131] fix: always_ff, always_comb and always_latch are
 analyzed as always blocks

---
 pyverilog/dataflow/bindvisitor.py   | 9 +++++++++
 pyverilog/dataflow/signalvisitor.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index d8fa3b1..4ccc3fb 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -231,6 +231,15 @@ class BindVisitor(NodeVisitor):
         self.generic_visit(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def _get_signal_name(self, n):
         if isinstance(n, Identifier):
             return n.name
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e55842d..000dda2 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -166,6 +166,15 @@ class SignalVisitor(NodeVisitor):
         self.generic_visit(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_IfStatement(self, node):
 
         if (self.frames.isGenerate()
-- 
2.43.0


From ea4946c364ae9a52a4e8e305cb3a856fbec1a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 029/131] fix: a default item that is not the last applies only
 if no other item matches

---
 pyverilog/dataflow/bindvisitor.py   | 4 +++-
 pyverilog/dataflow/signalvisitor.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 4ccc3fb..1b900cc 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -372,7 +372,9 @@ class BindVisitor(NodeVisitor):
             return
         start_frame = self.frames.getCurrent()
         caseframes = []
-        self._case(node.comp, node.caselist, caseframes)
+        # the default item applies only if no other item matches, wherever it is written
+        caselist = sorted(node.caselist, key=lambda case: case.cond is None)
+        self._case(node.comp, caselist, caseframes)
         self.frames.setCurrent(start_frame)
         for f in caseframes:
             self.copyBlockingAssigns(f, start_frame)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 000dda2..ee34045 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -234,7 +234,9 @@ class SignalVisitor(NodeVisitor):
 
     def visit_CaseStatement(self, node):
         start_frame = self.frames.getCurrent()
-        self._case(node.comp, node.caselist)
+        # the default item applies only if no other item matches, wherever it is written
+        caselist = sorted(node.caselist, key=lambda case: case.cond is None)
+        self._case(node.comp, caselist)
         self.frames.setCurrent(start_frame)
 
     def visit_CasexStatement(self, node):
-- 
2.43.0


From e83f8740df16b35a6abcf7a7c9525084e49926f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 030/131] fix: bindings of different ranges with the same upper
 bound are kept apart

---
 pyverilog/dataflow/visit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index da67da3..d63e763 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -492,7 +492,7 @@ class Frame(object):
             return
         current = self.blockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.blockingassign[dst][c_i].tree = bind.tree
                 return
         self.blockingassign[dst] = current + (bind,)
@@ -511,7 +511,7 @@ class Frame(object):
             return
         current = self.nonblockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.nonblockingassign[dst][c_i].tree = copy.deepcopy(bind.tree)
                 return
         self.nonblockingassign[dst] = current + (copy.deepcopy(bind),)
-- 
2.43.0


From d59a58c3d5d4a158c8cc56745d8f62c65b6ef1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 031/131] fix: an assignment to a concatenation selects the
 bits of the assigned value once

---
 pyverilog/dataflow/bindvisitor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 1b900cc..88c8d40 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1453,7 +1453,7 @@ class BindVisitor(NodeVisitor):
             renamed_term = DFTerminal(renamed_dst[term_i][0])
             renamed_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
                                          renamed_term, condlist, flowlist,
-                                         num_dst=len(dst), alwaysinfo=alwaysinfo)
+                                         num_dst=1, alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
             self.frames.setBlockingAssign(name, renamed_bind, scope)
             term_i += 1
@@ -1492,15 +1492,16 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
+        if num_dst > 1:
+            # only the assigned value is shared by the destinations, not the tree built so far
+            raw_tree = reorder.reorder(
+                DFPartselect(raw_tree, part_msb, part_lsb))
+
         add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
 
-        if num_dst > 1:
-            tree = reorder.reorder(
-                DFPartselect(tree, part_msb, part_lsb))
-
         return Bind(tree, name, msb, lsb, ptr, alwaysinfo, bindtype)
 
     def diffBranchTree(self, tree, condlist, flowlist, matchflowlist=()):
-- 
2.43.0


From eba4133e79037709b4a81853e2324713bc56c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 032/131] fix: a conditional expression as the condition of
 another is converted (insertCond does not exist)

---
 pyverilog/dataflow/bindvisitor.py   | 2 +-
 pyverilog/dataflow/signalvisitor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 88c8d40..361d256 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1019,7 +1019,7 @@ class BindVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index ee34045..1d3fd07 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -517,7 +517,7 @@ class SignalVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From a6c7b4beff9729a7967358c7a4d74c118d50e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 033/131] fix: the dataflow modules import the errors they
 raise

---
 pyverilog/dataflow/merge.py     | 2 +-
 pyverilog/dataflow/optimizer.py | 8 ++++----
 pyverilog/dataflow/reorder.py   | 5 +++--
 pyverilog/dataflow/replace.py   | 3 ++-
 pyverilog/utils/scope.py        | 4 +++-
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c3216aa..e748144 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -463,7 +463,7 @@ class VerilogDataflowMerge(object):
                 msb = self.optimizer.optimizeConstant(term.msb)
                 lsb = self.optimizer.optimizeConstant(term.lsb)
             elif not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
-                raise FormatError('MSB and LSB should be constant.')
+                raise verror.FormatError('MSB and LSB should be constant.')
 
             if ptr is None or isinstance(ptr, DFEvalValue):
                 ptrval = None if ptr is None else ptr.value
diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b348416..3569537 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -81,7 +81,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFHighImpedance):
             return tree
         if isinstance(tree, DFDelay):
-            raise FormatError('Can not evaluate and optimize a DFDelay')
+            raise verror.FormatError('Can not evaluate and optimize a DFDelay')
             # return tree
 
         if isinstance(tree, DFIntConst):
@@ -344,7 +344,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFSyscall):
             return self.default_width
 
-        raise FormatError('Illegal Pointer in getWidth()')
+        raise verror.FormatError('Illegal Pointer in getWidth()')
 
     def evalConcat(self, nextnodes):
         concatval = 0
@@ -357,7 +357,7 @@ class VerilogOptimizer(object):
 
     def isCondTrue(self, cond):
         if not isinstance(cond, DFEvalValue):
-            raise FormatError('Can not evaluate the branch condition.')
+            raise verror.FormatError('Can not evaluate the branch condition.')
         if cond.value == 0:
             return False
         return True
@@ -437,7 +437,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFSyscall):
             return DFSyscall(tree.syscall, tuple([self.optimizeHierarchy(n) for n in tree.nextnodes]))
 
-        raise FormatError('Can not merge due to unrecognized type of tree')
+        raise verror.FormatError('Can not merge due to unrecognized type of tree')
 
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index f948af2..5d83779 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -12,6 +12,7 @@ import sys
 import os
 import copy
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -60,7 +61,7 @@ def reorder(tree):
         resolved_lsb = reorder(tree.lsb)
         resolved_var = reorder(tree.var)
         if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
-            raise FormatError('MSB and LSB should not be DFBranch')
+            raise verror.FormatError('MSB and LSB should not be DFBranch')
         if isinstance(resolved_var, DFBranch):
             return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
@@ -80,7 +81,7 @@ def reorder(tree):
     if isinstance(tree, DFDelay):
         return DFDelay(reorder(tree.nextnode))
 
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
 
 ############################################################################
 
diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index de4ac8b..8f45216 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -50,4 +51,4 @@ def replaceUndefined(tree, termname):
         for n in tree.nextnodes:
             nextnodes.append(replaceUndefined(n, termname))
         return DFConcat(tuple(nextnodes))
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
diff --git a/pyverilog/utils/scope.py b/pyverilog/utils/scope.py
index eb02ee4..563c43f 100644
--- a/pyverilog/utils/scope.py
+++ b/pyverilog/utils/scope.py
@@ -12,6 +12,8 @@ import sys
 import os
 import copy
 
+import pyverilog.utils.verror as verror
+
 scopetype_list_unprint = ('generate', 'always', 'function',  # 'functioncall',
                           'task', 'taskcall', 'initial', 'for', 'while', 'if')
 scopetype_list_print = ('module', 'block', 'signal', 'functioncall',)
@@ -22,7 +24,7 @@ class ScopeLabel(object):
     def __init__(self, scopename, scopetype='any', scopeloop=None):
         self.scopename = scopename
         if scopetype not in scopetype_list:
-            raise DefinitionError('No such Scope type')
+            raise verror.DefinitionError('No such Scope type')
         self.scopetype = scopetype
         self.scopeloop = scopeloop
 
-- 
2.43.0


From 24760c38d6c1d00479601305e6ae3863a459041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:56 +0000
Subject: [PATCH 034/131] fix: the width of <= is one bit in the optimizer
 (operator name misspelled)

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 3569537..040366f 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -19,7 +19,7 @@ from pyverilog.dataflow.dataflow import *
 
 class VerilogOptimizer(object):
     default_width = 32
-    compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
-- 
2.43.0


From dc7ea2cac7c364877b6437e0cd4c0155878bfc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 035/131] fix: <= is a comparison for isCompare (operator name
 misspelled)

---
 pyverilog/utils/signaltype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index 4371c52..da3e432 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -85,7 +85,7 @@ def isReset(search_str):
 
 
 # Operator
-compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 not_ops = ('Ulnot', 'Unot')
 split_and_ops = ('And', 'Land')
 split_or_ops = ('Or', 'Lor')
-- 
2.43.0


From a8098c5233fbf3d0cc60cda8483ac784c357c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 036/131] fix: constant folding knows unary plus and <<<, and
 leaves an unknown operator alone

---
 pyverilog/dataflow/optimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 040366f..76324ed 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -176,12 +176,16 @@ class VerilogOptimizer(object):
             if not isinstance(n, DFEvalValue):
                 return None
             valuelist.append(n.value)
-            if n.width > width:
+            if n.width is not None and n.width > width:
                 width = n.width
         rslt = self._evalOperator(operator, tuple(valuelist), width)
+        if rslt is None:
+            return None
         return DFEvalValue(rslt, width)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
+        if operator == 'Uplus':
+            return valuelist[0]
         if operator == 'Uminus':
             return -1 * valuelist[0]
         if operator == 'Ulnot':
@@ -243,6 +247,8 @@ class VerilogOptimizer(object):
             return valuelist[0] - valuelist[1]
         if operator == 'Sll':
             return valuelist[0] << valuelist[1]
+        if operator == 'Sla':
+            return valuelist[0] << valuelist[1]
         if operator == 'Srl':
             return valuelist[0] >> valuelist[1]
         if operator == 'Sra':
-- 
2.43.0


From a3ba06c7c250a96595eca622c68e3d94d9d7872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 037/131] fix: a folded xnor stays within its width

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 76324ed..58a71c2 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -275,7 +275,7 @@ class VerilogOptimizer(object):
         if operator == 'Xor':
             return valuelist[0] ^ valuelist[1]
         if operator == 'Xnor':
-            return ~(valuelist[0] ^ valuelist[1])
+            return ~(valuelist[0] ^ valuelist[1]) & ((1 << width) - 1)
         if operator == 'Or':
             return valuelist[0] | valuelist[1]
         if operator == 'Land':
-- 
2.43.0


From f8f9604d90464f28f91539b059a9de81accaff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 038/131] fix: folded division and remainder are exact,
 truncate toward zero and leave a zero divisor alone

---
 pyverilog/dataflow/optimizer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 58a71c2..e80a0ff 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -235,11 +235,18 @@ class VerilogOptimizer(object):
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
         if operator == 'Divide':
-            value = valuelist[0] / valuelist[1]
+            if valuelist[1] == 0:
+                return None
             if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
-                return int(value)
-            return value
+                value = abs(valuelist[0]) // abs(valuelist[1])
+                return value if (valuelist[0] < 0) == (valuelist[1] < 0) else -value
+            return valuelist[0] / valuelist[1]
         if operator == 'Mod':
+            if valuelist[1] == 0:
+                return None
+            if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
+                value = abs(valuelist[0]) % abs(valuelist[1])
+                return value if valuelist[0] >= 0 else -value
             return valuelist[0] % valuelist[1]
         if operator == 'Plus':
             return valuelist[0] + valuelist[1]
-- 
2.43.0


From e631e4cda978774d10a15f4b40047a55a04efdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 039/131] fix: a folded logical right shift of a negative value
 shifts in zeros

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index e80a0ff..9c79e61 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -257,6 +257,8 @@ class VerilogOptimizer(object):
         if operator == 'Sla':
             return valuelist[0] << valuelist[1]
         if operator == 'Srl':
+            if valuelist[0] < 0:
+                return (valuelist[0] & ((1 << width) - 1)) >> valuelist[1]
             return valuelist[0] >> valuelist[1]
         if operator == 'Sra':
             return valuelist[0] >> valuelist[1]
-- 
2.43.0


From c427a5a141e3a8cccf5bd42e074c733513ffc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 040/131] fix: folded concatenations and part selects keep only
 the bits of their width

---
 pyverilog/dataflow/optimizer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 9c79e61..f3134af 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -367,7 +367,7 @@ class VerilogOptimizer(object):
         for node in nextnodes:
             width = self.getWidth(node)
             sum_width += width
-            concatval = (concatval << width) | node.value
+            concatval = (concatval << width) | (node.value & ((1 << width) - 1))
         return DFEvalValue(concatval, sum_width)
 
     def isCondTrue(self, cond):
@@ -379,9 +379,7 @@ class VerilogOptimizer(object):
 
     def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
-        partval = var.value >> lsb.value
-        if partval >= 2 ** width:
-            partval = partval % (2 ** width)
+        partval = (var.value >> lsb.value) & ((1 << width) - 1)
         return DFEvalValue(partval, width)
 
     def evalPointer(self, var, ptr):
-- 
2.43.0


From e7d995649a64905c408d0c4680855a5aee008b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 041/131] fix: folding a bit select or a half constant part
 select, and the width of a system call, do not fail

---
 pyverilog/dataflow/optimizer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index f3134af..6dfba67 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -96,9 +96,9 @@ class VerilogOptimizer(object):
             return DFEvalValue(tree.eval(), None, isstring=True)
         if isinstance(tree, DFConstant):
             if 'x' in tree.value or 'z' in tree.value:
-                return DFUndefined()
+                return DFUndefined(self.default_width)
             if 'X' in tree.value or 'Z' in tree.value:
-                return DFUndefined()
+                return DFUndefined(self.default_width)
             return DFEvalValue(tree.eval(), self.default_width)
 
         if isinstance(tree, DFOperator):
@@ -135,7 +135,7 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
-            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(msb, DFEvalValue):
+            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 evalcc = self.evalPartselect(var, msb, lsb)
                 return evalcc
             return DFPartselect(var, msb, lsb)
@@ -356,7 +356,7 @@ class VerilogOptimizer(object):
                 width = abs(msb - lsb) + 1
                 return width
             return 1
-        if isinstance(tree, DFSyscall):
+        if isinstance(node, DFSyscall):
             return self.default_width
 
         raise verror.FormatError('Illegal Pointer in getWidth()')
@@ -383,7 +383,7 @@ class VerilogOptimizer(object):
         return DFEvalValue(partval, width)
 
     def evalPointer(self, var, ptr):
-        ptrval = (var >> ptr) & 0x1
+        ptrval = (var.value >> ptr.value) & 0x1
         return DFEvalValue(ptrval, 1)
 
     def optimizeHierarchy(self, tree):
-- 
2.43.0


From 476418065095d43c1271b59ca1c3279335504c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 042/131] fix: the result of a comparison, a logical operator
 or a reduction is one bit wide

---
 pyverilog/dataflow/optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6dfba67..6d0fac0 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -21,6 +21,8 @@ class VerilogOptimizer(object):
     default_width = 32
     compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 
+    onebit_ops = compare_ops + ('Land', 'Lor', 'Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
+
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
         self.constlist = constlist if constlist is not None else {}
@@ -181,6 +183,8 @@ class VerilogOptimizer(object):
         rslt = self._evalOperator(operator, tuple(valuelist), width)
         if rslt is None:
             return None
+        if operator in self.onebit_ops:
+            width = 1
         return DFEvalValue(rslt, width)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
@@ -330,9 +334,7 @@ class VerilogOptimizer(object):
             width = abs(msb - lsb) + 1
             return width
         if isinstance(node, DFOperator):
-            if node.operator in self.compare_ops:
-                return 1
-            if node.operator == 'Land' or node.operator == 'Lor':
+            if node.operator in self.onebit_ops:
                 return 1
             maxwidth = 0
             for n in node.nextnodes:
-- 
2.43.0


From 0ef8561c98fb4610c4eedf6108b9ca30e4f23352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 043/131] fix: a part select of a concatenation selects within
 its elements

---
 pyverilog/dataflow/optimizer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6d0fac0..7e305bc 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -474,6 +474,7 @@ class VerilogOptimizer(object):
         lsboffset = -1
         msboffset = -1
         use = False
+        usedwidlist = []
         for w in widlist:  # from LSB
             if lsbcut >= widoffset and lsbcut < widoffset + w:
                 lsb = widoffset
@@ -481,6 +482,7 @@ class VerilogOptimizer(object):
                 use = True
             if use:
                 widsum += w
+                usedwidlist.append(w)
                 usednodes.append(self.optimizeConstant(nextnodes[-widpos]))
             if msbcut >= widoffset and msbcut < widoffset + w:
                 msb = widoffset + w - 1
@@ -497,34 +499,34 @@ class VerilogOptimizer(object):
             if lsboffset == 0:
                 return DFConcat((DFUndefined(cutwidth - widsum),) + tuple(usednodes))
             if len(usednodes) == 1:
-                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
+                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsboffset))))
+            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsboffset))))
         if lsboffset == 0 and msboffset == 0:
             if len(usednodes) == 1:
                 return usednodes[0]
             return DFConcat(tuple(usednodes))
 
         if len(usednodes) == 1:
-            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset - lsb), DFEvalValue(lsboffset))
 
         ret_usednodes = []
         usednodes_cnt = 0
         for node in reversed(usednodes):  # from LSB
             if usednodes_cnt == 0 and lsboffset > 0:
                 lsbval = lsboffset
-                msbval = widlist[usednodes_cnt] - 1
+                msbval = usedwidlist[usednodes_cnt] - 1
                 ret_usednodes.append(self.optimizeConstant(
                     DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
             elif usednodes_cnt == len(usednodes) - 1 and msboffset > 0:
                 lsbval = 0
-                msbval = widlist[usednodes_cnt] - msboffset - 1
+                msbval = usedwidlist[usednodes_cnt] - msboffset - 1
                 ret_usednodes.append(self.optimizeConstant(
                     DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
             else:
                 ret_usednodes.append(self.optimizeConstant(node))
             usednodes_cnt += 1
         ret_usednodes.reverse()
-        return DFPartselect(DFConcat(tuple(ret_usednodes)), DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+        return DFConcat(tuple(ret_usednodes))
 
     def _isPowerOf2(self, value):
         if value <= 0:
-- 
2.43.0


From 10b894f06f13252fa72e664acab103cbcc9bdd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 044/131] fix: a concatenation of selects with variable
 positions is left alone (AttributeError)

---
 pyverilog/dataflow/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 7e305bc..23c3071 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -614,10 +614,14 @@ class VerilogOptimizer(object):
                 pass
             elif last_node.var.name != n.var.name:
                 pass
+            elif not (isinstance(last_node.lsb, DFEvalValue) and isinstance(n.msb, DFEvalValue)):
+                pass
             elif last_node.lsb.value == n.msb.value + 1:
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-                if self.getWidth(last_node.var) == (last_node.msb.value - n.lsb.value + 1):
+                if not (isinstance(last_node.msb, DFEvalValue) and isinstance(n.lsb, DFEvalValue)):
+                    pass
+                elif self.getWidth(last_node.var) == (last_node.msb.value - n.lsb.value + 1):
                     new_node = last_node.var
                 ret_nodes.append(new_node)
                 last_node = new_node
-- 
2.43.0


From 84d1432882685968c968c6aff41730351a3453ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 045/131] fix: a bit select at a variable position is one bit
 wide (AttributeError)

---
 pyverilog/dataflow/optimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 23c3071..e5d0850 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -329,8 +329,14 @@ class VerilogOptimizer(object):
             return max(truewidth, falsewidth)
 
         if isinstance(node, DFPartselect):
-            msb = self.optimizeConstant(node.msb).value
-            lsb = self.optimizeConstant(node.lsb).value
+            msb = self.optimizeConstant(node.msb)
+            lsb = self.optimizeConstant(node.lsb)
+            if msb == lsb:  # a bit select, also at a variable position
+                return 1
+            if not (isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue)):
+                raise verror.FormatError('The width of a part select should be constant')
+            msb = msb.value
+            lsb = lsb.value
             width = abs(msb - lsb) + 1
             return width
         if isinstance(node, DFOperator):
-- 
2.43.0


From 42ebe9b34047a7b3fc6b6fb78c0338704d59ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 046/131] fix: merging bindings uses names that exist

---
 pyverilog/dataflow/merge.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index e748144..74e451b 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -69,8 +69,6 @@ class VerilogDataflowMerge(object):
         termtype = self.getTermtype(termname)
         if signaltype.isWire(termtype):
             return 'assign'
-        if signaltype.isWireArray(termtype):
-            return 'assign'
         if signaltype.isReg(termtype):
             if bind.isClockEdge():
                 return 'clockedge'
@@ -417,6 +415,7 @@ class VerilogDataflowMerge(object):
         ptr = self.optimizer.optimizeConstant(bind.ptr)
         if ptr is not None and msb is None or lsb is None:
             if self.getTermDims(bind.dest) is not None:
+                term = self.getTerm(bind.dest)
                 msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
                 lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
             else:
@@ -479,7 +478,7 @@ class VerilogDataflowMerge(object):
     def getPositionsFromRange(self, matched_range, search_ptr):
         positions = set([])
         for msb, lsb, ptr in matched_range:
-            if search_ptr is not None and search != ptr:
+            if search_ptr is not None and search_ptr != ptr:
                 continue
             positions.add(lsb)
             positions.add(msb + 1)
-- 
2.43.0


From d6ab0a4daedb9c8889b12ba0324289807f680d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 047/131] fix: the unmatched parts of a range are given as
 (msb, lsb) like the matched ones

---
 pyverilog/dataflow/merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 74e451b..52a2d43 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -516,13 +516,13 @@ class VerilogDataflowMerge(object):
                 minval = lsb
             if maxval is None or msb > maxval:
                 maxval = msb
-            if last_msb is not None and last_msb + 1 > lsb:
-                unmatched_range.append((last_msb + 1, lsb - 1, ptr))
+            if last_msb is not None and last_msb + 1 < lsb:
+                unmatched_range.append((lsb - 1, last_msb + 1, ptr))
             last_msb = msb
         if minval is None and maxval is None:
             return ((search_msb, search_lsb, search_ptr), )
         if search_lsb < minval:
-            unmatched_range.append((search_lsb, minval - 1, search_ptr))
+            unmatched_range.append((minval - 1, search_lsb, search_ptr))
         if maxval < search_msb:
-            unmatched_range.append((maxval + 1, search_msb, search_ptr))
+            unmatched_range.append((search_msb, maxval + 1, search_ptr))
         return tuple(unmatched_range)
-- 
2.43.0


From 92e25ee9816d7b35e1e79ccbe406456df5f5bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 048/131] fix: splitting a binding that does not start at bit 0
 selects the upper bits of its value

---
 pyverilog/dataflow/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 52a2d43..76130fd 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -435,7 +435,7 @@ class VerilogDataflowMerge(object):
             right_tree = reorder.reorder(DFPartselect(copy.deepcopy(
                 tree), DFEvalValue(right_width - 1), DFEvalValue(0)))
             left_tree = reorder.reorder(DFPartselect(copy.deepcopy(tree), DFEvalValue(
-                msb.value), DFEvalValue(msb.value - left_width + 1)))
+                right_width + left_width - 1), DFEvalValue(right_width)))
             right_tree = self.optimizer.optimize(right_tree)
             left_tree = self.optimizer.optimize(left_tree)
             left_bind = copy.deepcopy(bind)
-- 
2.43.0


From 319086ce388c052e86817653fb35ee868edc231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 049/131] fix: merging ranges fills a gap with its width and
 keeps the ranges of an array element

---
 pyverilog/dataflow/merge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 76130fd..2831005 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -289,13 +289,14 @@ class VerilogDataflowMerge(object):
             return ptr * length + lsb
         for bind in sorted(optimized_bindlist, key=bindkey):
             lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value):
+            ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
+            if concatlist and last_ptr != ptr:
                 continue
             if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
+                concatlist.append(DFUndefined(lsb - last_msb - 1))
             concatlist.append(bind.tree)
             last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
+            last_ptr = ptr
         return DFConcat(tuple(reversed(concatlist)))
 
     def getOptimizedBindlist(self, bindlist):
-- 
2.43.0


From ad565bd0b4b6cba75bd0323ab3d27d920fc1a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 050/131] fix: a gap between merged ranges has the width of the
 gap

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 361d256..348742f 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1286,7 +1286,7 @@ class BindVisitor(NodeVisitor):
                             else bind.ptr.value):
                 continue
             if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
+                concatlist.append(DFUndefined(lsb - last_msb - 1))
             concatlist.append(bind.tree)
             last_msb = -1 if bind.msb is None else bind.msb.value
             last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
-- 
2.43.0


From 50c3b30f2b5434e4fce966e6407fc7566645f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 051/131] fix: a later unconditional binding of a range
 overrides an earlier conditional one

---
 pyverilog/dataflow/merge.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 2831005..bf9254d 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -375,9 +375,7 @@ class VerilogDataflowMerge(object):
             return second
 
         if isinstance(first, DFBranch) and not isinstance(second, DFBranch):
-            cond_fst = self.optimizer.optimize(first.condnode)
-            appended = copy.deepcopy(second)
-            return DFBranch(cond_fst, self.appendTail(appended, first.truenode), self.appendTail(appended, first.falsenode))
+            return second
         if not isinstance(first, DFBranch) and isinstance(second, DFBranch):
             cond_snd = self.optimizer.optimize(second.condnode)
             appended = copy.deepcopy(first)
-- 
2.43.0


From da767295a02f28d4267e822a0c9c9e542964abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 052/131] fix: $signed and $unsigned in constant expressions
 are converted (TypeError)

---
 pyverilog/dataflow/signalvisitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 1d3fd07..0d2ef19 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -567,9 +567,9 @@ class SignalVisitor(NodeVisitor):
 
         if isinstance(node, SystemCall):
             if node.syscall == 'unsigned':
-                return self.makeDFTree(node.args[0])
+                return self.makeDFTree(node.args[0], scope)
             if node.syscall == 'signed':
-                return self.makeDFTree(node.args[0])
+                return self.makeDFTree(node.args[0], scope)
             return DFIntConst('0')
 
         raise verror.FormatError("unsupported AST node type: %s %s" %
-- 
2.43.0


From 74811390756d29b3ecd607c100fe5ceb25a720c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 053/131] fix: a hierarchical name in a constant expression is
 looked up (AttributeError)

---
 pyverilog/dataflow/signalvisitor.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 0d2ef19..11d1389 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -441,20 +441,29 @@ class SignalVisitor(NodeVisitor):
     def hasConstantTerm(self, name):
         self.optimizer.hasTerm(name)
 
-    def toScopeChain(self, blocklabel):
+    def toScopeChain(self, blocklabel, current):
         scopelist = []
         for b in blocklabel.labellist:
             if b.loop is not None:
-                loop = self.optimize(b.loop)
+                loop = self.optimize(self.getTree(b.loop, current))
                 if not isinstance(loop, DFEvalValue):
                     raise verror.FormatError('Loop iterator should be constant')
-                scopelist.append(ScopeLabel(b.name, 'for', loop))
+                scopelist.append(ScopeLabel('for', 'for', loop.value))
             scopelist.append(ScopeLabel(b.name, 'any'))
         return ScopeChain(scopelist)
 
-    def searchScopeConstantValue(self, blocklabel, name):
-        currentmodule = self.frames.getCurrentModuleScopeChain()
-        localchain = currentmodule[-1:] + self.toScopeChain(blocklabel)
+    def getModuleScopeChain(self, target):
+        remove_cnt = 0
+        length = len(target)
+        for scope in reversed(target):
+            if scope.scopetype == 'module':
+                return target[:length - remove_cnt]
+            remove_cnt += 1
+        raise verror.DefinitionError('module not found')
+
+    def searchScopeConstantValue(self, blocklabel, name, current):
+        currentmodule = self.getModuleScopeChain(current)
+        localchain = currentmodule[-1:] + self.toScopeChain(blocklabel, current)
         matchedchain = self.frames.searchMatchedScopeChain(currentmodule, localchain)
         varname = currentmodule[:-1] + matchedchain + ScopeLabel(name, 'signal')
         const = self.getConstant(varname)
@@ -499,7 +508,7 @@ class SignalVisitor(NodeVisitor):
 
         if isinstance(node, Identifier):
             if node.scope is not None:
-                const = self.searchScopeConstantValue(node.scope, node.name)
+                const = self.searchScopeConstantValue(node.scope, node.name, scope)
                 return const
             return self.searchConstantValue(scope, node.name)
 
-- 
2.43.0


From 059fcfa6dc04af850eb66ac22b4d6bd451cdac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 054/131] fix: an assignment to a hierarchical name finds its
 signal (TypeError)

---
 pyverilog/dataflow/bindvisitor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 348742f..25714f5 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1330,6 +1330,8 @@ class BindVisitor(NodeVisitor):
             return (name, None, None, None)
 
         if isinstance(left, Identifier):
+            if left.scope is not None:
+                return (self.searchScopeTerminal(left.scope, left.name, scope), None, None, None)
             name = self.searchTerminal(left.name, scope)
             if name is None:
                 m = re.search('none', self.default_nettype)
@@ -1342,8 +1344,6 @@ class BindVisitor(NodeVisitor):
                 if m:
                     self.addTerm(Reg(left.name), rscope=scope)
                 name = self.searchTerminal(left.name, scope)
-            if left.scope is not None:
-                name = left.scope + ScopeLabel(left.name, 'signal')
             return (name, None, None, None)
 
         if isinstance(left, Partselect):
@@ -1357,7 +1357,7 @@ class BindVisitor(NodeVisitor):
                 return (name, msb, lsb, ptr)
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
-                name = left.var.scope + ScopeLabel(left.var.name, 'signal')
+                name = self.searchScopeTerminal(left.var.scope, left.var.name, scope)
             msb = self.optimize(self.makeDFTree(left.msb, scope))
             lsb = self.optimize(self.makeDFTree(left.lsb, scope))
             return (name, msb, lsb, None)
@@ -1373,7 +1373,7 @@ class BindVisitor(NodeVisitor):
                 return (name, msb, lsb, ptr)
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
-                name = left.var.scope + ScopeLabel(left.var.name, 'signal')
+                name = self.searchScopeTerminal(left.var.scope, left.var.name, scope)
             ptr = self.optimize(self.makeDFTree(left.ptr, scope))
             if self.getTermDims(name) is not None:
                 return (name, None, None, ptr)
-- 
2.43.0


From 53f6609ec54e9d2e8d89d0f7e55d35eab98be294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 055/131] fix: wrong ports and argument counts are reported as
 such (AttributeError)

---
 pyverilog/dataflow/bindvisitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 25714f5..bcf5f41 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -179,7 +179,7 @@ class BindVisitor(NodeVisitor):
         for ioport_i, port in enumerate(node.portlist):
             if port.portname is not None and not (port.portname in ioports):
                 raise verror.FormatError("No such port: %s in %s" %
-                                         (port.argname.name, nodename))
+                                         (port.portname, nodename))
             self.addInstancePortBind(port, ioports[ioport_i], arrayindex)
 
         new_current = self.frames.getCurrent()
@@ -1092,7 +1092,7 @@ class BindVisitor(NodeVisitor):
 
             if len(funcports) != len(funcargs):
                 raise verror.FormatError("%s takes exactly %d arguments. (%d given)" %
-                                         (func.name.name, len(funcports), len(funcargs)))
+                                         (func.name, len(funcports), len(funcargs)))
             for port in funcports:
                 self.addTerm(Wire(port.name, port.width))
 
@@ -1128,7 +1128,7 @@ class BindVisitor(NodeVisitor):
 
             if len(taskports) != len(taskargs):
                 raise verror.FormatError("%s takes exactly %d arguments. (%d given)" %
-                                         (task.name.name, len(taskports), len(taskargs)))
+                                         (task.name, len(taskports), len(taskargs)))
             for port in taskports:
                 self.addTerm(Wire(port.name, port.width))
 
-- 
2.43.0


From d09fbe4698d26d63a5f921cce64c46621ab21672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 056/131] fix: a supply net without a range is one bit wide

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index bcf5f41..aa06128 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -851,7 +851,7 @@ class BindVisitor(NodeVisitor):
             termtype = 'Task'
         termtypes = set([termtype])
 
-        if isinstance(node, (Parameter, Localparam)):
+        if isinstance(node, (Parameter, Localparam)) and not isinstance(node, Supply):
             msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
         else:
             msb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.msb, scope)
-- 
2.43.0


From 8cef954725b7c6beadead5c92b2413f8071b4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 057/131] fix: the range of a signal declared in a generate
 loop uses the genvar value of its iteration

---
 pyverilog/dataflow/bindvisitor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index aa06128..78f57ee 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -851,18 +851,19 @@ class BindVisitor(NodeVisitor):
             termtype = 'Task'
         termtypes = set([termtype])
 
+        # a range may depend on a genvar, whose value is that of the current iteration
         if isinstance(node, (Parameter, Localparam)) and not isinstance(node, Supply):
-            msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
+            msb = DFIntConst('31') if node.width is None else self.getTree(node.width.msb, scope)
         else:
-            msb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.msb, scope)
-        lsb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.lsb, scope)
+            msb = DFIntConst('0') if node.width is None else self.getTree(node.width.msb, scope)
+        lsb = DFIntConst('0') if node.width is None else self.getTree(node.width.lsb, scope)
 
         dims = None
         if node.dimensions is not None:
             dims = []
             for length in node.dimensions.lengths:
-                l = self.makeDFTree(length.msb, scope)
-                r = self.makeDFTree(length.lsb, scope)
+                l = self.getTree(length.msb, scope)
+                r = self.getTree(length.lsb, scope)
                 dims.append((l, r))
             dims = tuple(dims)
 
-- 
2.43.0


From 44fa3455d065fd795c52e6e83e1def17213a9011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 058/131] fix: an instance of a module with a ranged parameter
 is analyzed (FormatError)

---
 pyverilog/dataflow/signalvisitor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 11d1389..f66ed50 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -388,9 +388,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError("Multiple definitions for Constant")
             for definition in definitions:
                 simple_definition = copy.deepcopy(definition)
-                if simple_definition.width is not None:
-                    simple_definition.width.msb = None
-                    simple_definition.width.lsb = None
+                simple_definition.width = None
                 term = self.makeConstantTerm(name, simple_definition, current)
                 self.setConstantTerm(name, term)
 
-- 
2.43.0


From 7fb1b4c74cd855f606b7ac52953c515ffebc8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 059/131] fix: after an instance the default net type of its
 own module applies again

---
 pyverilog/dataflow/bindvisitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 78f57ee..17f325b 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -59,8 +59,10 @@ class BindVisitor(NodeVisitor):
         return self.visit(self.moduleinfotable.getDefinition(self.top))
 
     def visit_ModuleDef(self, node):
+        default_nettype = self.default_nettype
         self.default_nettype = node.default_nettype
         self.generic_visit(node)
+        self.default_nettype = default_nettype
 
     def visit_Input(self, node):
         self.addTerm(node)
-- 
2.43.0


From a69c8bb0fb98a0c4a24540cc572343a4de57095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 060/131] fix: a blank positional port connection keeps its
 position

---
 pyverilog/vparser/parser.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 6a26326..58f1886 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1903,6 +1903,10 @@ class VerilogParser(object):
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
 
+    def p_instance_ports_empty(self, p):
+        'instance_ports : empty'
+        p[0] = ()
+
     def p_instance_ports_list(self, p):
         'instance_ports_list : instance_ports_list COMMA instance_port_list'
         p[0] = p[1] + (p[3],)
@@ -1913,9 +1917,20 @@ class VerilogParser(object):
         p[0] = (p[1],)
         p.set_lineno(0, p.lineno(1))
 
-    def p_instance_ports_list_empty(self, p):
-        'instance_ports_list : empty'
-        p[0] = ()
+    def p_instance_ports_list_blank(self, p):
+        'instance_ports_list : instance_ports_list COMMA'
+        p[0] = p[1] + (PortArg(None, None, lineno=p.lineno(2)),)
+        p.set_lineno(0, p.lineno(1))
+
+    def p_instance_ports_list_first_blank(self, p):
+        'instance_ports_list : COMMA instance_port_list'
+        p[0] = (PortArg(None, None, lineno=p.lineno(1)), p[2])
+        p.set_lineno(0, p.lineno(1))
+
+    def p_instance_ports_list_two_blanks(self, p):
+        'instance_ports_list : COMMA'
+        p[0] = (PortArg(None, None, lineno=p.lineno(1)),
+                PortArg(None, None, lineno=p.lineno(1)))
         p.set_lineno(0, p.lineno(1))
 
     def p_instance_port_list(self, p):
-- 
2.43.0


From f4ade1ebddfdf4d7b9bace05455a448e3f702123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 061/131] fix: each instance of an array gets its own part of a
 connection (AttributeError for part selects)

---
 pyverilog/dataflow/bindvisitor.py   | 58 ++++++++++++++++++++++-------
 pyverilog/dataflow/signalvisitor.py |  2 +-
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 17f325b..df4fe47 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -146,11 +146,10 @@ class BindVisitor(NodeVisitor):
         current = self.frames.getCurrent()
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
-        num_of_pins = msb + 1 - lsb
 
-        for i in range(lsb, msb + 1):
+        for i in range(min(msb, lsb), max(msb, lsb) + 1):
             nodename = node.name + '_' + str(i)
-            self._visit_Instance_body(node, nodename, arrayindex=i)
+            self._visit_Instance_body(node, nodename, arrayindex=abs(i - lsb))
 
     def _visit_Instance_body(self, node, nodename, arrayindex=None):
         if node.module in primitives:
@@ -192,19 +191,20 @@ class BindVisitor(NodeVisitor):
 
     def _visit_Instance_primitive(self, node, arrayindex=None):
         primitive_type = primitives[node.module]
+        scope = self.frames.getCurrent()
         left = node.portlist[0].argname
         if arrayindex is not None:
-            left = Pointer(left, IntConst(str(arrayindex)))
+            left = self.getArrayArg(left, scope, arrayindex)
+        inputs = [(Pointer(p.argname, IntConst('0')) if arrayindex is None else
+                   self.getArrayArg(p.argname, scope, arrayindex))
+                  for p in node.portlist[1:]]
         right = None
         if primitive_type == None:
-            right = (Pointer(node.portlist[1].argname, IntConst('0')) if arrayindex is None else
-                     Pointer(node.portlist[1].argname, IntConst(str(arrayindex))))
+            right = inputs[0]
         elif primitive_type == Unot:
-            right = (Ulnot(Pointer(node.portlist[1].argname, IntConst('0'))) if arrayindex is None else
-                     Ulnot(Pointer(node.portlist[1].argname, IntConst(str(arrayindex)))))
+            right = Ulnot(inputs[0])
         else:
-            concat_list = ([Pointer(p.argname, IntConst('0')) for p in node.portlist[1:]] if arrayindex is None else
-                           [Pointer(p.argname, IntConst(str(arrayindex))) for p in node.portlist[1:]])
+            concat_list = inputs
             right = primitive_type(Concat(concat_list))
         self.addBind(left, right, bindtype='assign')
 
@@ -909,24 +909,56 @@ class BindVisitor(NodeVisitor):
                 if port.argname is None:
                     continue
                 portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                           self.getArrayArg(port.argname, rscope, arrayindex, ldst[0][0]))
                 self.addDataflow(ldst, portarg, lscope, rscope)
             elif t == 'Output':
                 if port.argname is None:
                     continue
                 portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                           self.getArrayArg(port.argname, rscope, arrayindex, ldst[0][0]))
                 rdst = self.getDestinations(portarg, rscope)
                 self.addDataflow(rdst, portname, rscope, lscope)
             elif t == 'Inout':
                 if port.argname is None:
                     continue
                 portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                           self.getArrayArg(port.argname, rscope, arrayindex, ldst[0][0]))
                 self.addDataflow(ldst, portarg, lscope, rscope)
                 rdst = self.getDestinations(portarg, rscope)
                 self.addDataflow(rdst, portname, rscope, lscope)
 
+    # the part of a connection which belongs to an instance of an array
+    def getArrayArg(self, arg, scope, arrayindex, port=None):
+        portsize, _ = (1, 0) if port is None else self.getConstantRange(port)
+        base = 0
+        var = arg
+        if isinstance(arg, Identifier) and arg.scope is None:
+            name = self.searchTerminal(arg.name, scope)
+            if name is not None and self.getTermDims(name) is None:
+                size, base = self.getConstantRange(name)
+                if size == portsize:
+                    return arg
+        elif isinstance(arg, Partselect):
+            lsb = self.optimize(self.getTree(arg.lsb, scope))
+            if isinstance(lsb, DFEvalValue):
+                base = lsb.value
+                var = arg.var
+        lsb = base + arrayindex * portsize
+        if portsize == 1:
+            return Pointer(var, IntConst(str(lsb)))
+        return Partselect(var, IntConst(str(lsb + portsize - 1)), IntConst(str(lsb)))
+
+    def getConstantRange(self, name):
+        scope = name[:-1]
+        for definition in self.frames.getSignals(scope).get(name, ()):
+            if definition.width is None:
+                continue
+            msb = self.optimize(self.getTree(definition.width.msb, scope))
+            lsb = self.optimize(self.getTree(definition.width.lsb, scope))
+            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                return (abs(msb.value - lsb.value) + 1, min(msb.value, lsb.value))
+        return (1, 0)
+
     def addDataflow(self, dst, right, lscope, rscope, alwaysinfo=None, bindtype=None):
         condlist, flowlist = self.getCondflow(lscope)
         raw_tree = self.getTree(right, rscope)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index f66ed50..b697fed 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -122,7 +122,7 @@ class SignalVisitor(NodeVisitor):
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
 
-        for i in range(lsb, msb + 1):
+        for i in range(min(msb, lsb), max(msb, lsb) + 1):
             nodename = node.name + '_' + str(i)
             self._visit_Instance_body(node, nodename)
 
-- 
2.43.0


From f7fa900ca4ca4a77d95cff61eb41d468a705639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 062/131] fix: a parameter derived from an overridden one gets
 its value from the override

---
 pyverilog/dataflow/bindvisitor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index df4fe47..6a6e5b1 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -176,6 +176,9 @@ class BindVisitor(NodeVisitor):
             term = self.makeConstantTerm(name, definition, current)
             self.setConstantTerm(name, term)
 
+        new_current = self.frames.getCurrent()
+        self.copyFrameInfo(new_current)
+
         ioports = self.moduleinfotable.getIOPorts(node.module)
         for ioport_i, port in enumerate(node.portlist):
             if port.portname is not None and not (port.portname in ioports):
@@ -183,9 +186,6 @@ class BindVisitor(NodeVisitor):
                                          (port.portname, nodename))
             self.addInstancePortBind(port, ioports[ioport_i], arrayindex)
 
-        new_current = self.frames.getCurrent()
-        self.copyFrameInfo(new_current)
-
         self.visit(self.moduleinfotable.getDefinition(node.module))
         self.frames.setCurrent(current)
 
@@ -576,7 +576,6 @@ class BindVisitor(NodeVisitor):
     def stackInstanceFrame(self, instname, modulename):
         current = self.frames.getCurrent()
         self.frames.setCurrent(current + ScopeLabel(instname, 'module'))
-        self.copyFrameInfo(current + ScopeLabel(instname, 'module'))
         return current
 
     def stackNextFrame(self, label, scopetype,
-- 
2.43.0


From 805e921bcf756296846f00717e0edba62c8da615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 063/131] fix: an output port may be connected to a
 concatenation (FormatError)

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 6a6e5b1..57712ea 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1350,7 +1350,7 @@ class BindVisitor(NodeVisitor):
     def getDsts(self, left, scope):
         if isinstance(left, Lvalue):
             return self.getDsts(left.var, scope)
-        if isinstance(left, LConcat):
+        if isinstance(left, (LConcat, Concat)):
             dst = []
             for n in left.list:
                 dst.extend(list(self.getDsts(n, scope)))
-- 
2.43.0


From 57f6d1ac8047ff51ce2f40868aeab049eeb5bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 064/131] fix: merging an array with unassigned elements raised
 KeyError

---
 pyverilog/dataflow/merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index bf9254d..c50dbff 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -130,7 +130,7 @@ class VerilogDataflowMerge(object):
                 return DFTerminal(termname)
 
             if isinstance(ptr, DFEvalValue):
-                if len(discretebinds[ptr.value]) == 0:
+                if ptr.value not in discretebinds:
                     return None
                 if len(discretebinds[ptr.value]) == 1:
                     return discretebinds[ptr.value][0].tree
@@ -141,7 +141,7 @@ class VerilogDataflowMerge(object):
             ret = None
             for c in range(minptr, maxptr + 1):
                 truetree = None
-                if len(discretebinds[c]) == 0:
+                if c not in discretebinds:
                     continue
                 if len(discretebinds[c]) == 1:
                     truetree = discretebinds[c][0].tree
-- 
2.43.0


From 814dc78842c4ff5c7a5bb1d4b8b1dde92ccb54f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 065/131] fix: a part assigned before within a wider part was
 not split off it when merging

---
 pyverilog/dataflow/merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c50dbff..87d794e 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -499,6 +499,8 @@ class VerilogDataflowMerge(object):
                 match_msb = search_msb
             else:
                 match_msb = msb
+            if search_lsb <= lsb and msb <= search_msb:
+                match = True
             if match:
                 matched_range.append((match_msb, match_lsb, search_ptr))
         return tuple(matched_range)
-- 
2.43.0


From 3c25838ec958a63479005383328be9ebf97bd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 066/131] fix: a word && its bitwise complement is not always
 zero

---
 pyverilog/dataflow/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index e5d0850..e886df7 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -782,13 +782,13 @@ class VerilogOptimizer(object):
                 return left
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-                if self.getWidth(node) == 1:
+                if self.getWidth(right) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
             if isinstance(right, DFOperator) and right.operator == 'Unot'\
                     and right.nextnodes[0] == left:
-                if self.getWidth(node) == 1:
+                if self.getWidth(left) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
-- 
2.43.0


From 73c85d6b559ff361b88556d69bce9f3e1c5ea2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:16 +0000
Subject: [PATCH 067/131] fix: a large factor next to a power of two was taken
 for one

---
 pyverilog/dataflow/optimizer.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index e886df7..9012c57 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -535,12 +535,7 @@ class VerilogOptimizer(object):
         return DFConcat(tuple(ret_usednodes))
 
     def _isPowerOf2(self, value):
-        if value <= 0:
-            return False
-        p = math.log(value, 2)
-        if p % 1.0 == 0:
-            return True
-        return False
+        return value > 0 and value & (value - 1) == 0
 
     def replaceOperator(self, node):
         if not isinstance(node, DFOperator):
@@ -549,17 +544,17 @@ class VerilogOptimizer(object):
             (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
              self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sll')
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[0], DFEvalValue) and
              isinstance(node.nextnodes[0].value, int) and
              self._isPowerOf2(node.nextnodes[0].value))):
-            return DFOperator((node.nextnodes[1], DFEvalValue(int(math.log(node.nextnodes[0].value, 2)))), 'Sll')
+            return DFOperator((node.nextnodes[1], DFEvalValue(node.nextnodes[0].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Divide'
             and (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
                  self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sra')
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sra')
         return node
 
     def mergeConcat(self, concatnode):
-- 
2.43.0


From 563f54db0b1a85bb4ee244200bdd0b2a8b47995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:19 +0000
Subject: [PATCH 068/131] fix: parts of a vector that does not start at bit 0
 were selected at the wrong position

---
 pyverilog/dataflow/bindvisitor.py | 11 ++++++-----
 pyverilog/dataflow/merge.py       |  4 ++--
 pyverilog/dataflow/optimizer.py   | 25 +++++++++++++++++++++----
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 57712ea..f0f7044 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1434,6 +1434,9 @@ class BindVisitor(NodeVisitor):
                                           part_msb, part_lsb,
                                           alwaysinfo)
 
+    def selectPart(self, tree, msb, lsb):
+        return reorder.reorder(self.optimizer.selectPart(reorder.reorder(tree), msb, lsb))
+
     def setDataflow_rename(self, dst, raw_tree, condlist, flowlist,
                            scope, alwaysinfo=None):
         renamed_dst = self.getRenamedDst(dst)
@@ -1444,7 +1447,7 @@ class BindVisitor(NodeVisitor):
                              part_msb, part_lsb, alwaysinfo):
         tree = raw_tree
         if len(dst) > 1:
-            tree = reorder.reorder(DFPartselect(raw_tree, part_msb, part_lsb))
+            tree = self.selectPart(raw_tree, part_msb, part_lsb)
         bind = Bind(tree, name, msb, lsb, ptr, alwaysinfo)
         self.frames.addNonblockingAssign(name, bind)
 
@@ -1469,8 +1472,7 @@ class BindVisitor(NodeVisitor):
         for name, msb, lsb, ptr, part_msb, part_lsb in renamed_dst:
             tree = raw_tree
             if len(renamed_dst) > 1:
-                tree = reorder.reorder(
-                    DFPartselect(tree, part_msb, part_lsb))
+                tree = self.selectPart(tree, part_msb, part_lsb)
             bind = Bind(tree, name, msb, lsb, ptr)
             self.dataflow.addBind(name, bind)
 
@@ -1528,8 +1530,7 @@ class BindVisitor(NodeVisitor):
 
         if num_dst > 1:
             # only the assigned value is shared by the destinations, not the tree built so far
-            raw_tree = reorder.reorder(
-                DFPartselect(raw_tree, part_msb, part_lsb))
+            raw_tree = self.selectPart(raw_tree, part_msb, part_lsb)
 
         add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 87d794e..2b2948a 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -431,9 +431,9 @@ class VerilogDataflowMerge(object):
             left_lsb = splitpos
             left_msb = msb.value
             left_width = msb.value - splitpos + 1
-            right_tree = reorder.reorder(DFPartselect(copy.deepcopy(
+            right_tree = reorder.reorder(self.optimizer.selectPart(copy.deepcopy(
                 tree), DFEvalValue(right_width - 1), DFEvalValue(0)))
-            left_tree = reorder.reorder(DFPartselect(copy.deepcopy(tree), DFEvalValue(
+            left_tree = reorder.reorder(self.optimizer.selectPart(copy.deepcopy(tree), DFEvalValue(
                 right_width + left_width - 1), DFEvalValue(right_width)))
             right_tree = self.optimizer.optimize(right_tree)
             left_tree = self.optimizer.optimize(left_tree)
diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 9012c57..9144a4d 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -463,6 +463,23 @@ class VerilogOptimizer(object):
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
 
+    def selectPart(self, tree, msb, lsb):
+        """ select bits counted from the lowest bit of the tree """
+        if tree is None:
+            return None
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.selectPart(tree.truenode, msb, lsb),
+                            self.selectPart(tree.falsenode, msb, lsb))
+        if isinstance(tree, DFTerminal) and self.hasTerm(tree.name):
+            term = self.getTerm(tree.name)
+            upper = self.optimizeConstant(term.msb)
+            offset = self.optimizeConstant(term.lsb)
+            if (isinstance(upper, DFEvalValue) and isinstance(offset, DFEvalValue) and
+                    0 != offset.value <= upper.value):
+                msb = self.optimizeConstant(DFOperator((msb, offset), 'Plus'))
+                lsb = self.optimizeConstant(DFOperator((lsb, offset), 'Plus'))
+        return DFPartselect(tree, msb, lsb)
+
     def takePart(self, nextnodes, msb, lsb):
         widlist = []
         for n in reversed(nextnodes):  # from LSB
@@ -505,7 +522,7 @@ class VerilogOptimizer(object):
             if lsboffset == 0:
                 return DFConcat((DFUndefined(cutwidth - widsum),) + tuple(usednodes))
             if len(usednodes) == 1:
-                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsboffset))))
+                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), self.selectPart(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsboffset))))
             return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsboffset))))
         if lsboffset == 0 and msboffset == 0:
             if len(usednodes) == 1:
@@ -513,7 +530,7 @@ class VerilogOptimizer(object):
             return DFConcat(tuple(usednodes))
 
         if len(usednodes) == 1:
-            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset - lsb), DFEvalValue(lsboffset))
+            return self.selectPart(usednodes[0], DFEvalValue(msb - msboffset - lsb), DFEvalValue(lsboffset))
 
         ret_usednodes = []
         usednodes_cnt = 0
@@ -522,12 +539,12 @@ class VerilogOptimizer(object):
                 lsbval = lsboffset
                 msbval = usedwidlist[usednodes_cnt] - 1
                 ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
+                    self.selectPart(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
             elif usednodes_cnt == len(usednodes) - 1 and msboffset > 0:
                 lsbval = 0
                 msbval = usedwidlist[usednodes_cnt] - msboffset - 1
                 ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
+                    self.selectPart(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
             else:
                 ret_usednodes.append(self.optimizeConstant(node))
             usednodes_cnt += 1
-- 
2.43.0


From 19cc99dc925fb404badb76100bff2b9c8ee09505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 069/131] fix: a signed literal with a size has the width of
 its size

---
 pyverilog/dataflow/dataflow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index a7c0cbf..6524d30 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -172,16 +172,16 @@ class DFIntConst(DFConstant):
 
     def width(self):
         targ = self.value.replace('_', '')
-        match = re.search(r'(.+)\'[Hh].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Hh].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Dd].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Dd].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Oo].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Oo].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Bb].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Bb].+', targ)
         if match is not None:
             return int(match.group(1), 10)
         return 32
-- 
2.43.0


From 6d796930e1271b9633920639adf5cc7ffbba409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:19 +0000
Subject: [PATCH 070/131] fix: a ? in a literal is a z (folding it raised
 ValueError)

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 9144a4d..c47e1f9 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -87,7 +87,7 @@ class VerilogOptimizer(object):
             # return tree
 
         if isinstance(tree, DFIntConst):
-            if 'x' in tree.value or 'z' in tree.value:
+            if 'x' in tree.value or 'z' in tree.value or '?' in tree.value:
                 return DFUndefined(tree.width())
             if 'X' in tree.value or 'Z' in tree.value:
                 return DFUndefined(tree.width())
-- 
2.43.0


From 25bb8c78062c5ee72ae74a3667050709d265e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 071/131] fix: a folded literal keeps only the bits of its size

---
 pyverilog/dataflow/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index c47e1f9..1d27067 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -91,7 +91,10 @@ class VerilogOptimizer(object):
                 return DFUndefined(tree.width())
             if 'X' in tree.value or 'Z' in tree.value:
                 return DFUndefined(tree.width())
-            return DFEvalValue(tree.eval(), tree.width())
+            value = tree.eval()
+            if "'" in tree.value:  # a literal wider than its size is truncated
+                value &= (1 << tree.width()) - 1
+            return DFEvalValue(value, tree.width())
         if isinstance(tree, DFFloatConst):
             return DFEvalValue(tree.eval(), self.default_width, isfloat=True)
         if isinstance(tree, DFStringConst):
-- 
2.43.0


From a67f2fbba98db1757a4714bb5666af48461c8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:04 +0000
Subject: [PATCH 072/131] fix: folding a negative exponent gives an integer,
 and a negative shift is left alone (ValueError)

---
 pyverilog/dataflow/optimizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 1d27067..30d33dd 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -238,6 +238,12 @@ class VerilogOptimizer(object):
                     rslt = 1 if rslt == 0 else 0
             return rslt
         if operator == 'Power':
+            if isinstance(valuelist[0], int) and isinstance(valuelist[1], int) and valuelist[1] < 0:
+                if valuelist[0] == 0:
+                    return None
+                if abs(valuelist[0]) > 1:
+                    return 0
+                return valuelist[0] if valuelist[1] % 2 else 1
             return valuelist[0] ** valuelist[1]
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
@@ -259,6 +265,8 @@ class VerilogOptimizer(object):
             return valuelist[0] + valuelist[1]
         if operator == 'Minus':
             return valuelist[0] - valuelist[1]
+        if operator in ('Sll', 'Sla', 'Srl', 'Sra') and valuelist[1] < 0:
+            return None
         if operator == 'Sll':
             return valuelist[0] << valuelist[1]
         if operator == 'Sla':
-- 
2.43.0


From f1d774e7c38095231858d159d0d4f099871b5327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 073/131] fix: the width of a branch without one of its values
 is that of the other

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 30d33dd..de1cc55 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -335,6 +335,8 @@ class VerilogOptimizer(object):
             return width
 
         if isinstance(node, DFBranch):
+            if node.truenode is None or node.falsenode is None:
+                return self.getWidth(node.truenode or node.falsenode)
             truewidth = self.getWidth(node.truenode)
             falsewidth = self.getWidth(node.falsenode)
             return max(truewidth, falsewidth)
-- 
2.43.0


From 90f7ed3b9c561bdbd1f98be6be3b17a79af18288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 074/131] fix: a concatenation with a string is not folded
 (TypeError)

---
 pyverilog/dataflow/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index de1cc55..786b56a 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -386,6 +386,8 @@ class VerilogOptimizer(object):
         concatval = 0
         sum_width = 0
         for node in nextnodes:
+            if not isinstance(node.value, int):
+                return None
             width = self.getWidth(node)
             sum_width += width
             concatval = (concatval << width) | (node.value & ((1 << width) - 1))
@@ -604,7 +606,7 @@ class VerilogOptimizer(object):
         constvallist = []
         constval = 0
         for n in concatnode.nextnodes:
-            if isinstance(n, DFEvalValue):
+            if isinstance(n, DFEvalValue) and isinstance(n.value, int):
                 constvallist.append(n)
                 constval = self.evalConcat(tuple(constvallist))
                 if len(constvallist) > 1:
-- 
2.43.0


From da56d274d6311fa7bf6eeae2bb5e36e7a9bf051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 075/131] fix: a parameter without a constant value (an x, a
 division by zero) does not hang the analysis

---
 pyverilog/dataflow/bindvisitor.py   | 8 ++++----
 pyverilog/dataflow/signalvisitor.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index f0f7044..d646637 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -616,9 +616,9 @@ class BindVisitor(NodeVisitor):
                 cterm = self.makeConstantTerm(name, definition, current)
                 self.setConstantTerm(name, cterm)
 
-        all_passed = False
-        while not all_passed:
-            all_passed = True
+        progress = True
+        while progress:  # until no further constant has a value
+            progress = False
             for name, definitions in self.frames.getConsts(current).items():
                 if len(definitions) > 1:
                     raise verror.FormatError("Multiple definitions for Constant")
@@ -630,9 +630,9 @@ class BindVisitor(NodeVisitor):
                         continue
                     value = self.optimize(self.getTree(definition.value, current))
                     if not isinstance(value, DFEvalValue):
-                        all_passed = False
                         continue
                     self.setConstant(name, value)
+                    progress = True
 
     def copyAllFrameInfo(self):
         for name, definitions in self.frames.getAllConsts().items():
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index b697fed..83ffbae 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -404,9 +404,9 @@ class SignalVisitor(NodeVisitor):
     def setInstanceConstants(self):
         current = self.frames.getCurrent()
 
-        all_passed = False
-        while not all_passed:
-            all_passed = True
+        progress = True
+        while progress:  # until no further constant has a value
+            progress = False
             for name, definitions in self.frames.getConsts(current).items():
                 if len(definitions) > 1:
                     raise verror.FormatError("Multiple definitions for Constant")
@@ -419,10 +419,10 @@ class SignalVisitor(NodeVisitor):
                         continue
                     value = self.optimize(self.getTree(definition.value, current))
                     if not isinstance(value, DFEvalValue):
-                        all_passed = False
                         continue
 
                     self.setConstant(name, value)
+                    progress = True
 
     def setConstant(self, name, value):
         self.optimizer.setConstant(name, value)
-- 
2.43.0


From e3ecd848890a2640f8dff3057a392f9ecd780c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 076/131] fix: a parameter without a constant value is left
 alone by constant folding (AttributeError)

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 786b56a..18af496 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -115,7 +115,7 @@ class VerilogOptimizer(object):
             return DFOperator(tuple(nextnodes_rslts), tree.operator)
 
         if isinstance(tree, DFTerminal):
-            if not self.hasConstant(tree.name):
+            if not self.hasConstant(tree.name) or not isinstance(self.getConstant(tree.name), DFEvalValue):
                 return tree
             msb = self.getTerm(tree.name).msb
             lsb = self.getTerm(tree.name).lsb
-- 
2.43.0


From c00277b3a8109088f0036d09273fad54dd2d6eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:40 +0000
Subject: [PATCH 077/131] fix: a select of a parameter that does not start at
 bit 0 takes the bits at its indices

---
 pyverilog/dataflow/optimizer.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 18af496..05e40bc 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -141,7 +141,8 @@ class VerilogOptimizer(object):
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
             if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
-                evalcc = self.evalPartselect(var, msb, lsb)
+                low = self.lowestIndex(tree.var)
+                evalcc = self.evalPartselect(var, DFEvalValue(msb.value - low), DFEvalValue(lsb.value - low))
                 return evalcc
             return DFPartselect(var, msb, lsb)
 
@@ -154,7 +155,7 @@ class VerilogOptimizer(object):
             if term.dims is not None:
                 return DFPointer(var, ptr)
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
-                evalcc = self.evalPointer(var, ptr)
+                evalcc = self.evalPointer(var, DFEvalValue(ptr.value - self.lowestIndex(tree.var)))
                 return evalcc
             return DFPointer(var, ptr)
 
@@ -400,12 +401,25 @@ class VerilogOptimizer(object):
             return False
         return True
 
+    def lowestIndex(self, tree):
+        """ index of the lowest bit of a signal or parameter """
+        if isinstance(tree, DFTerminal) and self.hasTerm(tree.name):
+            upper = self.optimizeConstant(self.getTerm(tree.name).msb)
+            lower = self.optimizeConstant(self.getTerm(tree.name).lsb)
+            if isinstance(upper, DFEvalValue) and isinstance(lower, DFEvalValue) and lower.value <= upper.value:
+                return lower.value
+        return 0
+
     def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
+        if lsb.value < 0:  # below the lowest bit
+            return DFUndefined(width)
         partval = (var.value >> lsb.value) & ((1 << width) - 1)
         return DFEvalValue(partval, width)
 
     def evalPointer(self, var, ptr):
+        if ptr.value < 0:
+            return DFUndefined(1)
         ptrval = (var.value >> ptr.value) & 0x1
         return DFEvalValue(ptrval, 1)
 
@@ -485,14 +499,11 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFBranch):
             return DFBranch(tree.condnode, self.selectPart(tree.truenode, msb, lsb),
                             self.selectPart(tree.falsenode, msb, lsb))
-        if isinstance(tree, DFTerminal) and self.hasTerm(tree.name):
-            term = self.getTerm(tree.name)
-            upper = self.optimizeConstant(term.msb)
-            offset = self.optimizeConstant(term.lsb)
-            if (isinstance(upper, DFEvalValue) and isinstance(offset, DFEvalValue) and
-                    0 != offset.value <= upper.value):
-                msb = self.optimizeConstant(DFOperator((msb, offset), 'Plus'))
-                lsb = self.optimizeConstant(DFOperator((lsb, offset), 'Plus'))
+        if isinstance(tree, DFTerminal):
+            low = self.lowestIndex(tree)
+            if low != 0:
+                msb = self.optimizeConstant(DFOperator((msb, DFEvalValue(low)), 'Plus'))
+                lsb = self.optimizeConstant(DFOperator((lsb, DFEvalValue(low)), 'Plus'))
         return DFPartselect(tree, msb, lsb)
 
     def takePart(self, nextnodes, msb, lsb):
-- 
2.43.0


From 3bd9afcc60c881979a77aed505888b750111faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:01 +0000
Subject: [PATCH 078/131] fix: dataflow: quote string values in generated code

---
 pyverilog/dataflow/dataflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 6524d30..96e1622 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -207,6 +207,9 @@ class DFStringConst(DFConstant):
         ret = '(StringConst ' + str(self.value) + ')'
         return ret
 
+    def tocode(self, dest='dest'):
+        return '"' + str(self.value) + '"'
+
     def eval(self):
         return self.value
 
@@ -517,6 +520,8 @@ class DFEvalValue(DFNode):
         return ret
 
     def tocode(self, dest='dest'):
+        if self.isstring:
+            return '"' + self.value + '"'
         return self.__repr__()
 
     def children(self):
-- 
2.43.0


From 2f459ff705db3e76b78c26e3a88ef6eeaf210d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 079/131] fix: dataflow: render a real value as a real number,
 not with a decimal base

---
 pyverilog/dataflow/dataflow.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 96e1622..4bf8a84 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -497,9 +497,10 @@ class DFEvalValue(DFNode):
         ret = ''
         if self.value < 0:
             ret += '(-'
-        if self.width != 32:
-            ret += str(self.width)
-        ret += "'d"
+        if not self.isfloat:
+            if self.width != 32:
+                ret += str(self.width)
+            ret += "'d"
         ret += str(abs(self.value))
         if self.value < 0:
             ret += ')'
@@ -511,9 +512,10 @@ class DFEvalValue(DFNode):
         ret = ''
         if self.value < 0:
             ret += '(-'
-        if self.width != 32:
-            ret += str(self.width)
-        ret += "'d"
+        if not self.isfloat:
+            if self.width != 32:
+                ret += str(self.width)
+            ret += "'d"
         ret += str(abs(self.value))
         if self.value < 0:
             ret += ')'
-- 
2.43.0


From a420befa8ceb7c0471c4cff4aa08b62d780c0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 080/131] fix: dataflow: render a system function without
 arguments as a balanced call

---
 pyverilog/dataflow/dataflow.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 4bf8a84..6f9694c 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -663,17 +663,14 @@ class DFSyscall(DFNotTerminal):
         ret = '(Syscall '
         ret += self.syscall
         ret += ' Next:'
-        for n in self.nextnodes:
-            ret += n.tostr() + ','
-        ret = ret[0:-1] + ')'
+        ret += ','.join([n.tostr() for n in self.nextnodes])
+        ret += ')'
         return ret
 
     def tocode(self, dest='dest'):
-        ret = '$' + self.syscall + '('
-        for n in self.nextnodes:
-            ret += n.tocode(dest) + ','
-        ret = ret[:-1]
-        ret += ')'
+        ret = '$' + self.syscall
+        if self.nextnodes:
+            ret += '(' + ','.join([n.tocode(dest) for n in self.nextnodes]) + ')'
         return ret
 
     def children(self):
-- 
2.43.0


From 34550cd12eca40a8423dce08b678a1ced9084a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:09 +0000
Subject: [PATCH 081/131] fix: dataflow: declare each generated signal with
 exactly one data type

---
 pyverilog/dataflow/dataflow.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 6f9694c..451c74b 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -750,27 +750,20 @@ class Term(object):
                 code += 'inout '
             elif signaltype.isOutput(self.termtype):
                 code += 'output '
-        else:
-            if signaltype.isInput(self.termtype):
-                code += 'wire '
-            elif signaltype.isInout(self.termtype):
-                code += 'wire '
-            elif signaltype.isOutput(self.termtype) and not signaltype.isReg(self.termtype):
-                code += 'wire '
 
+        hasrange = True
         if signaltype.isReg(self.termtype):
             code += 'reg '
-        if signaltype.isWire(self.termtype):
-            code += 'wire '
-        if signaltype.isInteger(self.termtype):
+        elif signaltype.isInteger(self.termtype):
             code += 'integer '
-        if signaltype.isFunction(self.termtype):
-            code += 'wire '
-        if signaltype.isRename(self.termtype):
+            hasrange = False
+        elif signaltype.isGenvar(self.termtype):
+            code += 'genvar '
+            hasrange = False
+        elif signaltype.isWire(self.termtype) or code == '':
             code += 'wire '
 
-        if (not signaltype.isInteger(self.termtype)
-                and self.msb is not None and self.lsb is not None):
+        if hasrange and self.msb is not None and self.lsb is not None:
             code += '[' + self.msb.tocode(None) + ':' + self.lsb.tocode(None) + '] '
         code += flatname  # signal name
         if self.dims is not None:
-- 
2.43.0


From d1470967057dd455fa6caf22126bbdb2b1eb8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:29 +0000
Subject: [PATCH 082/131] fix: dataflow: keep the bit of a vector clock or
 reset in generated sensitivity lists

---
 pyverilog/dataflow/dataflow.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 451c74b..3fd2b24 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -869,16 +869,22 @@ class Bind(object):
         code += ' = ' + self.tree.tocode(dest) + ';\n'
         return code
 
+    def _edge(self, edge, name, bit):
+        code = edge + ' ' + util.toFlatname(name)
+        if bit:
+            code += '[' + str(bit) + ']'
+        return code
+
     def _always_clockedge(self):
         dest = self.getdest()
         code = 'always @('
         if self.alwaysinfo.clock_edge is not None and self.alwaysinfo.clock_name is not None:
-            code += self.alwaysinfo.clock_edge + ' '
-            code += util.toFlatname(self.alwaysinfo.clock_name)
+            code += self._edge(self.alwaysinfo.clock_edge, self.alwaysinfo.clock_name,
+                               self.alwaysinfo.clock_bit)
         if self.alwaysinfo.reset_edge is not None and self.alwaysinfo.reset_name is not None:
             code += ' or '
-            code += self.alwaysinfo.reset_edge + ' '
-            code += util.toFlatname(self.alwaysinfo.reset_name)
+            code += self._edge(self.alwaysinfo.reset_edge, self.alwaysinfo.reset_name,
+                               self.alwaysinfo.reset_bit)
         code += ') begin\n'
         if isinstance(self.tree, DFBranch):
             code += self.tree.tocode(dest, always='clockedge')
-- 
2.43.0


From a60742b06a8f17668e3d2ae9859d8f0662f84136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 083/131] fix: dataflow_codegen: close the port list when the
 top module has no other ports

---
 pyverilog/dataflow/dataflow_codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index e2d24aa..a0dc7a3 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -78,7 +78,7 @@ class VerilogCodeGenerator(VerilogSubset):
                     modulehead += util.toFlatname(tk) + ', '
                 elif signaltype.isOutput(termtype):
                     modulehead += util.toFlatname(tk) + ', '
-        modulehead = modulehead[:-2] + ');\n\n'
+        modulehead = modulehead.rstrip()[:-1] + ');\n\n'
         return modulehead
 
     def _system_io(self, clock_name, reset_name, enable_name):
-- 
2.43.0


From 05e138a33ec56c8ca91a5d31637e84f497997aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 084/131] fix: dataflow_codegen: do not replace the dot of real
 numbers and strings when flattening names

---
 pyverilog/dataflow/dataflow_codegen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index a0dc7a3..de988f3 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -162,6 +162,8 @@ class VerilogCodeGenerator(VerilogSubset):
         ret = modulehead + code + moduletail
 
         if self.flat:
-            ret = re.sub('\.', '_', ret)
+            # strings, escaped identifiers and real numbers keep their dots
+            ret = re.sub(r'("(?:\\.|[^"\\])*"|\\\S+|\d\.\d)|\.',
+                         lambda m: m.group(1) or '_', ret)
 
         return ret
-- 
2.43.0


From 2b6e168f7e134577d8ea620ca0ff57b54c1454c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 085/131] fix: dataflow_codegen: declare parameters before the
 signals whose ranges use them

---
 pyverilog/dataflow/dataflow_codegen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index de988f3..5602c73 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -128,6 +128,10 @@ class VerilogCodeGenerator(VerilogSubset):
         # clock, reset, control input definition
         code += self._system_io(self.clock_name, self.reset_name, self.enable_name)
 
+        # parameters are used in the ranges of the signals
+        for pk, pv in parameter.items():
+            code += pv.tocode()
+
         # general signal definition
         for tk, tv in terms.items():
             termtype = self.getTermtype(tk)
@@ -137,9 +141,6 @@ class VerilogCodeGenerator(VerilogSubset):
                 continue
             code += tv.tocode()
 
-        for pk, pv in parameter.items():
-            code += pv.tocode()
-
         # assign
         for ak, avv in assign.items():
             cnt = 0
-- 
2.43.0


From e267dc7c14fecc33091f873e7da54202e59bc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 086/131] fix: subset: define parameters by their resolved
 values, which do not depend on their order

---
 pyverilog/dataflow/subset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 47df2d2..c488447 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -114,11 +114,10 @@ class VerilogSubset(VerilogDataflowMerge):
                     if not left in assign:
                         assign[left] = set([])
                     assign[left].add(right)
-                elif assign_type == 'parameter':
-                    parameter[left] = right
-                    continue
-                elif assign_type == 'localparam':
-                    parameter[left] = right
+                elif assign_type == 'parameter' or assign_type == 'localparam':
+                    # the resolved value needs no other parameter to be defined before
+                    resolved = self.getResolvedBindlist(left)
+                    parameter[left] = resolved[-1] if resolved else right
                     continue
                 if not left in terms:
                     terms[left] = self.terms[left]
-- 
2.43.0


From 7b4c87f7dcb3d7d952f9ed144012e955bcf8c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:39 +0000
Subject: [PATCH 087/131] fix: merge: tri and supply nets are assigned like
 wires

---
 pyverilog/dataflow/merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 2b2948a..8f8b899 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -93,6 +93,8 @@ class VerilogDataflowMerge(object):
             return 'assign'
         if signaltype.isGenvar(termtype):
             return 'genvar'
+        if signaltype.isType(termtype, 'Tri') or signaltype.isType(termtype, 'Supply'):
+            return 'assign'
         raise verror.DefinitionError('Unexpected Assignment Type: %s : %s' %
                                      (str(termname), str(termtype)))
 
-- 
2.43.0


From 1913351b10e05ae75fc0232c538053c5893f068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:57 +0000
Subject: [PATCH 088/131] fix: scope: flat names of escaped identifiers are
 escaped as a whole

---
 pyverilog/utils/scope.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyverilog/utils/scope.py b/pyverilog/utils/scope.py
index 563c43f..00e3246 100644
--- a/pyverilog/utils/scope.py
+++ b/pyverilog/utils/scope.py
@@ -103,7 +103,11 @@ class ScopeChain(object):
             else:
                 it = None
         ret = ret[:-1]
-        return ''.join(ret)
+        code = ''.join(ret)
+        if '\\' in code:
+            # escaped identifiers
+            return '\\' + code.replace('\\', '') + ' '
+        return code
 
     def get_module_list(self):
         return [scope for scope in self.scopechain if scope.scopetype == 'module']
-- 
2.43.0


From 801fcb8758d3ca9b03431d7c9ca9a72341b81e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 089/131] fix: subset: emit signals and assignments in a
 reproducible order

---
 pyverilog/dataflow/subset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index c488447..2862b10 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -55,7 +55,7 @@ class VerilogSubset(VerilogDataflowMerge):
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
 
         sources = self.getBindSources(termname)
-        for source in sources:
+        for source in sorted(sources, key=str):
             if source in visited_sources:
                 continue
             nextsources.add(source)
@@ -81,7 +81,7 @@ class VerilogSubset(VerilogDataflowMerge):
 
     def getSubset(self, targets):
         visited_binddict, visited_sources = self.getBindSourceSubset(targets)
-        return self._discretion(visited_binddict, visited_sources)
+        return self._discretion(visited_binddict, sorted(visited_sources, key=str))
 
     def _discretion(self, visited_binddict, visited_sources):
         terms = collections.OrderedDict()
@@ -104,16 +104,16 @@ class VerilogSubset(VerilogDataflowMerge):
                 assign_type = self.getAssignType(left, right)
                 if assign_type == 'clockedge':
                     if not left in always_clockedge:
-                        always_clockedge[left] = set([])
-                    always_clockedge[left].add(right)
+                        always_clockedge[left] = []
+                    always_clockedge[left].append(right)
                 elif assign_type == 'combination':
                     if not left in always_combination:
-                        always_combination[left] = set([])
-                    always_combination[left].add(right)
+                        always_combination[left] = []
+                    always_combination[left].append(right)
                 elif assign_type == 'assign':
                     if not left in assign:
-                        assign[left] = set([])
-                    assign[left].add(right)
+                        assign[left] = []
+                    assign[left].append(right)
                 elif assign_type == 'parameter' or assign_type == 'localparam':
                     # the resolved value needs no other parameter to be defined before
                     resolved = self.getResolvedBindlist(left)
-- 
2.43.0


From 0415a38f033de46d8e96285f69a017c015d92472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:23 +0000
Subject: [PATCH 090/131] fix: subset: the clock and the reset of a register
 belong to its sources

---
 pyverilog/dataflow/subset.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 2862b10..8b0941a 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -43,18 +43,20 @@ class VerilogSubset(VerilogDataflowMerge):
         bindlist = self.getBindlist(termname)
         nextsources = visited_sources.copy()
         ret_binds = collections.OrderedDict()
+        edges = set()
         for bind in bindlist:
             if not termname in ret_binds:
                 ret_binds[termname] = []
             ret_binds[termname].append(bind)
             if bind.isClockEdge():
                 clock_name = bind.getClockName()
-                if clock_name != util.toTermname((self.topmodule, self.clock_name)):
-                    r_binds, r_sources = self.getBindSubset(clock_name, nextsources)
-                    nextsources |= r_sources
-                    ret_binds = util.dictlistmerge(ret_binds, r_binds)
+                if clock_name and clock_name != util.toTermname((self.topmodule, self.clock_name)):
+                    edges.add(clock_name)
+                reset_name = bind.getResetName()
+                if reset_name and reset_name != util.toTermname((self.topmodule, self.reset_name)):
+                    edges.add(reset_name)
 
-        sources = self.getBindSources(termname)
+        sources = self.getBindSources(termname) | edges
         for source in sorted(sources, key=str):
             if source in visited_sources:
                 continue
-- 
2.43.0


From a93a9e2ef43d6400c54eb4f5d4616a3ad61aed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:41 +0000
Subject: [PATCH 091/131] fix: subset: a target without driver belongs to the
 subset

---
 pyverilog/dataflow/subset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 8b0941a..a02c1f9 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -72,7 +72,7 @@ class VerilogSubset(VerilogDataflowMerge):
         for target in targets:
             termname = util.toTermname(target)
             r_binds, r_sources = self.getBindSubset(termname, visited_sources)
-            visited_sources |= r_sources
+            visited_sources |= r_sources | set([termname, ])
             visited_binddict = util.dictlistmerge(visited_binddict, r_binds)
         return visited_binddict, visited_sources
 
-- 
2.43.0


From 3f7a749752ce98c70ee5315f628681dce269f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:14 +0000
Subject: [PATCH 092/131] fix: subset: supply nets are emitted once, as the
 constants they are bound to

---
 pyverilog/dataflow/merge.py  | 4 +++-
 pyverilog/dataflow/subset.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 8f8b899..ab89183 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -93,8 +93,10 @@ class VerilogDataflowMerge(object):
             return 'assign'
         if signaltype.isGenvar(termtype):
             return 'genvar'
-        if signaltype.isType(termtype, 'Tri') or signaltype.isType(termtype, 'Supply'):
+        if signaltype.isType(termtype, 'Tri'):
             return 'assign'
+        if signaltype.isType(termtype, 'Supply'):
+            return 'parameter'
         raise verror.DefinitionError('Unexpected Assignment Type: %s : %s' %
                                      (str(termname), str(termtype)))
 
diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index a02c1f9..26927fc 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -99,6 +99,9 @@ class VerilogSubset(VerilogDataflowMerge):
                 continue
             if signaltype.isLocalparam(termtype):
                 continue
+            if signaltype.isType(termtype, 'Supply'):
+                # bound as a parameter
+                continue
             terms[source] = self.terms[source]
 
         for left, rights in visited_binddict.items():
-- 
2.43.0


From 159b486f4226dac1c3823ad92a343e39e5e0113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:07 +0000
Subject: [PATCH 093/131] fix: walker: delays and system functions were
 undefined node types

---
 pyverilog/dataflow/walker.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 5b69358..83d76dd 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -117,5 +117,14 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                 nextnodes.append(self.walkTree(n, visited, step, delay))
             return DFConcat(tuple(nextnodes))
 
+        if isinstance(tree, DFDelay):
+            return DFDelay(self.walkTree(tree.nextnode, visited, step, delay))
+
+        if isinstance(tree, DFSyscall):
+            nextnodes = []
+            for n in tree.nextnodes:
+                nextnodes.append(self.walkTree(n, visited, step, delay))
+            return DFSyscall(tree.syscall, tuple(nextnodes))
+
         raise verror.DefinitionError(
             'Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
-- 
2.43.0


From 6d98a53270f9aa935b3179e3e2fa0df31d8ee53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 094/131] fix: replace: high impedance values, delays and
 system functions were undefined node types

---
 pyverilog/dataflow/replace.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index 8f45216..8f8111b 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -20,7 +20,8 @@ def replaceUndefined(tree, termname):
         return DFTerminal(termname)
     if isinstance(tree, DFUndefined):
         return DFTerminal(termname)
-    # if isinstance(tree, DFHighImpedance): return DFTerminal(termname)
+    if isinstance(tree, DFHighImpedance):
+        return tree
     if isinstance(tree, DFConstant):
         return tree
     if isinstance(tree, DFEvalValue):
@@ -51,4 +52,11 @@ def replaceUndefined(tree, termname):
         for n in tree.nextnodes:
             nextnodes.append(replaceUndefined(n, termname))
         return DFConcat(tuple(nextnodes))
+    if isinstance(tree, DFDelay):
+        return DFDelay(replaceUndefined(tree.nextnode, termname))
+    if isinstance(tree, DFSyscall):
+        nextnodes = []
+        for n in tree.nextnodes:
+            nextnodes.append(replaceUndefined(n, termname))
+        return DFSyscall(tree.syscall, tuple(nextnodes))
     raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
-- 
2.43.0


From 8bfda0a6ad4770dbb5c38905527079fdc2ae9883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 095/131] fix: merge: sources of high impedance values, delays
 and system functions

---
 pyverilog/dataflow/merge.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index ab89183..0d885e1 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -173,6 +173,8 @@ class VerilogDataflowMerge(object):
             return set()
         if isinstance(tree, DFUndefined):
             return set()
+        if isinstance(tree, DFHighImpedance):
+            return set()
         if isinstance(tree, DFEvalValue):
             return set()
         if isinstance(tree, DFTerminal):
@@ -246,6 +248,8 @@ class VerilogDataflowMerge(object):
             return set()
         if isinstance(tree, DFUndefined):
             return set()
+        if isinstance(tree, DFHighImpedance):
+            return set()
         if isinstance(tree, DFEvalValue):
             return set()
         if isinstance(tree, DFTerminal):
@@ -256,11 +260,13 @@ class VerilogDataflowMerge(object):
             ret |= self.getTreeSources(tree.truenode)
             ret |= self.getTreeSources(tree.falsenode)
             return ret
-        if isinstance(tree, DFOperator):
+        if isinstance(tree, (DFOperator, DFSyscall)):
             ret = set()
             for n in tree.nextnodes:
                 ret |= self.getTreeSources(n)
             return ret
+        if isinstance(tree, DFDelay):
+            return self.getTreeSources(tree.nextnode)
         if isinstance(tree, DFPartselect):
             ret = set()
             ret |= self.getTreeSources(tree.var)
-- 
2.43.0


From dabc618b581333d2cc4e542eaeac96f5a1f76d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:17 +0000
Subject: [PATCH 096/131] fix: walker: a select of a signal takes the same bits
 of what the signal is replaced by

---
 pyverilog/dataflow/walker.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 83d76dd..87db793 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -33,6 +33,28 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
         walked_tree = self.walkTree(tree, visited=set(), step=step)
         return replace.replaceUndefined(walked_tree, termname)
 
+    def moveIndex(self, index, source, walked):
+        # the index into "walked" of the bit that has "index" in "source"
+        if walked is source:
+            return index
+        if isinstance(source, DFTerminal):
+            index = self.addIndex(index, self.getLowIndex(source.name), 'Minus')
+        if isinstance(walked, DFTerminal):
+            index = self.addIndex(index, self.getLowIndex(walked.name), 'Plus')
+        if isinstance(walked, DFPartselect):
+            index = self.addIndex(index, walked.lsb, 'Plus')
+        return index
+
+    def addIndex(self, index, offset, operator):
+        offset = self.optimizer.optimize(offset)
+        if offset is None or (isinstance(offset, DFEvalValue) and offset.value == 0):
+            return index
+        return self.optimizer.optimize(DFOperator((index, offset), operator))
+
+    def getLowIndex(self, termname):
+        term = self.getTerm(termname)
+        return None if term is None else term.lsb
+
     def walkTree(self, tree, visited=set([]), step=0, delay=False, msb=None, lsb=None, ptr=None):
         if tree is None:
             return DFUndefined(32)
@@ -96,10 +118,10 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             msb = self.walkTree(tree.msb, visited, step, delay)
             lsb = self.walkTree(tree.lsb, visited, step, delay)
             var = self.walkTree(tree.var, visited, step, delay, msb=msb, lsb=lsb)
-            if isinstance(var, DFPartselect):
-                child_lsb = self.getTerm(str(tree.var)).lsb.eval()
-                return DFPartselect(var.var, DFIntConst(str(msb.eval() + var.lsb.eval() - child_lsb)),
-                                    DFIntConst(str(lsb.eval() + var.lsb.eval() - child_lsb)))
+            msb = self.moveIndex(msb, tree.var, var)
+            lsb = self.moveIndex(lsb, tree.var, var)
+            if var is not tree.var and isinstance(var, DFPartselect):
+                var = var.var
             return DFPartselect(var, msb, lsb)
 
         if isinstance(tree, DFPointer):
@@ -109,6 +131,9 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                 if (self.getTermDims(tree.var.name) is not None and
                         not (isinstance(var, DFTerminal) and var.name == tree.var.name)):
                     return var
+            ptr = self.moveIndex(ptr, tree.var, var)
+            if var is not tree.var and isinstance(var, DFPartselect):
+                var = var.var
             return DFPointer(var, ptr)
 
         if isinstance(tree, DFConcat):
-- 
2.43.0


From e09b03c8684edd042b8e23f1a713ff4df4b1b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 097/131] fix: walker: a signal without a value stands for
 itself, not for the signal walked from

---
 pyverilog/dataflow/walker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 87db793..f2305fb 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -99,8 +99,12 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                         and not signaltype.isRename(termtype)):
                     nextstep -= 1
 
-            return self.walkTree(self.getTree(termname, nptr),
-                                 visited | set([termname, ]), nextstep, delay)
+            nexttree = self.getTree(termname, nptr)
+            if nexttree is None:
+                # a signal without a value stands for itself
+                return tree
+
+            return self.walkTree(nexttree, visited | set([termname, ]), nextstep, delay)
 
         if isinstance(tree, DFBranch):
             condnode = self.walkTree(tree.condnode, visited, step, delay)
-- 
2.43.0


From 53839c137f0379fd80cc56ba7a8b8f6805f641b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:38 +0000
Subject: [PATCH 098/131] fix: walker: a register that is not assigned keeps
 its own value, not that of the signal walked from

---
 pyverilog/dataflow/walker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index f2305fb..b062cc0 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -103,6 +103,9 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             if nexttree is None:
                 # a signal without a value stands for itself
                 return tree
+            if nextstep != step and nptr is None:
+                # a register keeps its own value
+                nexttree = replace.replaceUndefined(nexttree, termname)
 
             return self.walkTree(nexttree, visited | set([termname, ]), nextstep, delay)
 
-- 
2.43.0


From 4c8cd3e16acc861a31d112acfac50efdb4da3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:21 +0000
Subject: [PATCH 099/131] fix: walker: a select of an array element takes the
 same bits of what the element is replaced by

---
 pyverilog/dataflow/walker.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index b062cc0..724d7af 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -35,16 +35,23 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
 
     def moveIndex(self, index, source, walked):
         # the index into "walked" of the bit that has "index" in "source"
-        if walked is source:
+        if not self.isReplaced(source, walked):
             return index
-        if isinstance(source, DFTerminal):
-            index = self.addIndex(index, self.getLowIndex(source.name), 'Minus')
+        signal = source.var if isinstance(source, DFPointer) else source
+        index = self.addIndex(index, self.getLowIndex(signal.name), 'Minus')
         if isinstance(walked, DFTerminal):
             index = self.addIndex(index, self.getLowIndex(walked.name), 'Plus')
         if isinstance(walked, DFPartselect):
             index = self.addIndex(index, walked.lsb, 'Plus')
         return index
 
+    def isReplaced(self, source, walked):
+        # whether "walked" is what the signal or the array element "source" is replaced by
+        if isinstance(source, DFPointer):
+            return (isinstance(source.var, DFTerminal) and self.getTermDims(source.var.name) is not None and
+                    not (isinstance(walked, DFPointer) and walked.var is source.var))
+        return isinstance(source, DFTerminal) and walked is not source
+
     def addIndex(self, index, offset, operator):
         offset = self.optimizer.optimize(offset)
         if offset is None or (isinstance(offset, DFEvalValue) and offset.value == 0):
@@ -127,7 +134,7 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             var = self.walkTree(tree.var, visited, step, delay, msb=msb, lsb=lsb)
             msb = self.moveIndex(msb, tree.var, var)
             lsb = self.moveIndex(lsb, tree.var, var)
-            if var is not tree.var and isinstance(var, DFPartselect):
+            if self.isReplaced(tree.var, var) and isinstance(var, DFPartselect):
                 var = var.var
             return DFPartselect(var, msb, lsb)
 
@@ -139,7 +146,7 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                         not (isinstance(var, DFTerminal) and var.name == tree.var.name)):
                     return var
             ptr = self.moveIndex(ptr, tree.var, var)
-            if var is not tree.var and isinstance(var, DFPartselect):
+            if self.isReplaced(tree.var, var) and isinstance(var, DFPartselect):
                 var = var.var
             return DFPointer(var, ptr)
 
-- 
2.43.0


From 1e2abcbe9f138784172936af0549439fc95de922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:09 +0000
Subject: [PATCH 100/131] fix: inference: "less or equal" was not found
 (misspelt)

---
 pyverilog/utils/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index d241360..b86b0fa 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -42,7 +42,7 @@ def op_GreaterThan(val):
     return InferredValue(minval, maxval)
 
 
-def op_LassEq(val):
+def op_LessEq(val):
     minval = 0
     maxval = val
     return InferredValue(minval, maxval)
-- 
2.43.0


From 333fbf1a4ff3e20fa1ce8b1aa18165e56a0f684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:38 +0000
Subject: [PATCH 101/131] fix: transition: values that the state cannot take
 are no states

---
 pyverilog/controlflow/transition.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 084c113..e1b3005 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -270,11 +270,13 @@ def createStateNode(infval, width):
     statelabels = []
     minval = infval.minval
     maxval = infval.maxval
-    if minval is None:
+    maxvalue = util.maxValue(width)
+    if minval is None or minval < 0:
         minval = 0
-    if maxval is None:
-        maxval = util.maxValue(width)
-    ret = StateNode(((minval, maxval),), 0, util.maxValue(width), None)
+    if maxval is None or maxval > maxvalue:
+        maxval = maxvalue
+    range_pairs = ((minval, maxval),) if minval <= maxval else ()
+    ret = StateNode(range_pairs, 0, maxvalue, None)
     if infval.inv:
         ret = notStateNodeList(ret)
     return ret
-- 
2.43.0


From d1ae31722ca674ef4bfbce9bb734efb9a4d3b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:10 +0000
Subject: [PATCH 102/131] fix: inference: nothing is less than 0

---
 pyverilog/utils/inference.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index b86b0fa..4c0f35a 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -30,9 +30,6 @@ def infer(op, node):
 def op_LessThan(val):
     minval = 0
     maxval = val - 1
-    if maxval < 0:
-        minval = None
-        maxval = None
     return InferredValue(minval, maxval)
 
 
-- 
2.43.0


From a6982b17af00b1ecee756da93018f2aa49375b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:44 +0000
Subject: [PATCH 103/131] fix: transition: a comparison of the state with
 another signal is a transition condition

---
 pyverilog/controlflow/transition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index e1b3005..785c791 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -72,10 +72,10 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-    if isinstance(l, DFTerminal) and l.name == termname:
+    if isinstance(l, DFTerminal) and l.name == termname and isinstance(r, DFEvalValue):
         infval = inference.infer(cond.operator, r)
         return createStateNode(infval, termwidth)
-    if isinstance(r, DFTerminal) and r.name == termname:
+    if isinstance(r, DFTerminal) and r.name == termname and isinstance(l, DFEvalValue):
         new_op = re.sub('Greater', 'TMP', cond.operator)
         new_op = re.sub('Less', 'Greater', new_op)
         new_op = re.sub('TMP', 'Less', new_op)
-- 
2.43.0


From 08f64d2b08c22efe1672ace4d80c40cb9bb23413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:14 +0000
Subject: [PATCH 104/131] fix: transition: conditions that exclude each other
 were taken for no condition

---
 pyverilog/controlflow/transition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 785c791..ad663e4 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -24,10 +24,10 @@ def walkCondlist(condlist, termname, termwidth=32):
         return StateNode(maxvalue=maxvalue, isany=True)
     for cond in condlist:
         rslt = walkCond(cond, termname, termwidth)
-        if node and rslt:
-            node = andStateNodeList(node, rslt)
-        elif rslt:
+        if node is None:
             node = rslt
+        else:
+            node = andStateNodeList(node, rslt)
     return node
 
 
@@ -198,7 +198,7 @@ def andStateNode(sna, snb):
         range_pairs = _and_range_pairs(sna, snb)
 
     if (not isany) and len(range_pairs) == 0:
-        return None
+        return StateNode(maxvalue=max(sna.maxvalue, snb.maxvalue))  # no state
 
     transcond = None
     if isinstance(sna.transcond, DFNode) and isinstance(snb.transcond, DFNode):
-- 
2.43.0


From d111c8f55df1d87d6e90bd1163e5d655e7446f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:38 +0000
Subject: [PATCH 105/131] fix: transition: the complement of every state is no
 state

---
 pyverilog/controlflow/transition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index ad663e4..f95c016 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -167,6 +167,8 @@ def andStateNodeList(lnode, rnode):
 
 def notStateNode(node):
     if node.isany:
+        if node.transcond is None:
+            return StateNode(maxvalue=node.maxvalue)  # no state
         new_transcond = _not_transcond(node.transcond)
         return StateNode(transcond=new_transcond, maxvalue=node.maxvalue, isany=True)
     new_range_pairs = _not_range_pairs(node)
-- 
2.43.0


From ed6a365cc3964e7a53b4d71119fde46b90842b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:10 +0000
Subject: [PATCH 106/131] fix: transition: unary operators other than "not" are
 no negations, and a bitwise complement is one only of a truth value

---
 pyverilog/controlflow/transition.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index f95c016..60462d3 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -45,10 +45,29 @@ def walkCond(cond, termname, termwidth=32):
 
 
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
-    node = walkCond(cond.nextnodes[0], termname, termwidth)
-    if signaltype.isNot(cond.operator):
-        node = notStateNodeList(node)
-    return node
+    if cond.operator == 'Ulnot' or (signaltype.isNot(cond.operator) and
+                                    isBoolean(cond, termname, termwidth)):
+        node = walkCond(cond.nextnodes[0], termname, termwidth)
+        return notStateNodeList(node)
+    if cond.operator in ('Uor', 'Uplus'):
+        return walkCond(cond.nextnodes[0], termname, termwidth)
+    maxvalue = util.maxValue(termwidth)
+    return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
+
+
+def isBoolean(node, termname, termwidth=32):
+    """ whether the value of the node is known to be 0 or 1 """
+    if isinstance(node, DFTerminal):
+        return node.name == termname and termwidth == 1
+    if not isinstance(node, DFOperator):
+        return False
+    if signaltype.isCompare(node.operator):
+        return True
+    if node.operator in ('Ulnot', 'Land', 'Lor', 'Uand', 'Uor', 'Uxor', 'Unand', 'Unor', 'Uxnor'):
+        return True
+    if node.operator in ('Unot', 'And', 'Or', 'Xor', 'Xnor'):
+        return all([isBoolean(n, termname, termwidth) for n in node.nextnodes])
+    return False
 
 
 def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
@@ -263,8 +282,6 @@ def _not_transcond(transcond):
         return None
     elif isinstance(transcond, DFOperator) and transcond.operator == 'Ulnot':
         return transcond.nextnodes[0]
-    elif isinstance(transcond, DFOperator) and transcond.operator == 'Unot':
-        return transcond.nextnodes[0]
     return DFOperator((transcond,), 'Ulnot')
 
 
-- 
2.43.0


From 6fa48ad2d7cc0ec6f48154a5ae8434d72280ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 107/131] fix: transition: a bitwise "and" is a logical one
 only of truth values

---
 pyverilog/controlflow/transition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 60462d3..ecec13f 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -81,7 +81,8 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
         ret = orStateNodeList(lnode, rnode)
         if ret:
             return ret
-    if not signaltype.isCompare(cond.operator) and signaltype.isAnd(cond.operator):
+    if cond.operator == 'Land' or (signaltype.isAnd(cond.operator) and
+                                   isBoolean(cond, termname, termwidth)):
         lnode = walkCond(cond.nextnodes[0], termname, termwidth)
         rnode = walkCond(cond.nextnodes[1], termname, termwidth)
         ret = andStateNodeList(lnode, rnode)
-- 
2.43.0


From 9356629beb2eeb9385abf6f01cfbb43fe4f2cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 108/131] fix: controlflow: a transition whose condition is 0
 does not exist

---
 pyverilog/controlflow/controlflow_analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 0ebae8a..9c76066 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -196,8 +196,9 @@ class FiniteStateMachine(object):
                         dst_cond_dict[dst] = evaluate.optimize(DFOperator((cur_cond, cond), 'Lor'))
             new_dstdict = {}
             for dst, cond in dst_cond_dict.items():
-                if isinstance(cond, DFEvalValue) and cond.value > 0:
-                    new_dstdict[None] = dst
+                if isinstance(cond, DFEvalValue):
+                    if cond.value != 0:
+                        new_dstdict[None] = dst
                 else:
                     new_dstdict[cond] = dst
             new_fsm[src] = new_dstdict
-- 
2.43.0


From d98bf7a245cbccc42b270fcf368a24f9358c9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:38 +0000
Subject: [PATCH 109/131] fix: controlflow: loops through states that are in
 other loops were not found

---
 pyverilog/controlflow/controlflow_analyzer.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 9c76066..001c1ab 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -252,23 +252,10 @@ class FiniteStateMachine(object):
 
     def get_loop(self):
         loops = set([])
-        loop_node_cnt = {}
         for k in sorted(self.fsm.keys()):
-            if not k in self.fsm:
-                continue
-            if not k in loop_node_cnt:
-                loop_node_cnt[k] = 0
-            if loop_node_cnt[k] >= len(self.fsm[k].values()):
-                continue
             paths = self.get_looppath(k)
             for path in paths:
-                rotated = self.rotate(path)
-                if rotated not in loops:
-                    loops.add(rotated)
-                    for r in rotated:
-                        if not r in loop_node_cnt:
-                            loop_node_cnt[r] = 0
-                        loop_node_cnt[r] += 1
+                loops.add(self.rotate(path))
         return loops
 
     def rotate(self, path):
-- 
2.43.0


From 85fb3fb42eb5315ec5f2d0831759f61403294701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 110/131] fix: controlflow: loops of more than 50 states were
 not found

---
 pyverilog/controlflow/controlflow_analyzer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 001c1ab..5860fd9 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -274,10 +274,8 @@ class FiniteStateMachine(object):
                 paths |= r
         return paths
 
-    def _looppath(self, src, node, visited, cnt=0):
+    def _looppath(self, src, node, visited):
         paths = set([])
-        if cnt > 50:
-            return paths
         if src == node:
             paths.add((src,))
             return paths
@@ -285,7 +283,7 @@ class FiniteStateMachine(object):
             return paths
         nextnodes = set(self.fsm[node].values()) - visited
         for n in nextnodes:
-            r = self._looppath(src, n, visited=visited | set([node]), cnt=cnt + 1)
+            r = self._looppath(src, n, visited=visited | set([node]))
             if len(r) > 0:
                 for np in r:
                     paths.add((node,) + np)
-- 
2.43.0


From b862fe271a1a92956142cf477a9da5ec841e4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:44 +0000
Subject: [PATCH 111/131] fix: active_analyzer: dict.values() has no index in
 Python 3

---
 pyverilog/controlflow/active_analyzer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index 273f3cc..d24d7a4 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -33,7 +33,6 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
         funcdict = splitter.remove_reset_condition(funcdict)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
-            func = funcdict.values()[0]
             return {termname: (('any', None), )}
 
         active_conditions = {}
-- 
2.43.0


From 356954e87ab5728f6caf9639e5160049165b5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:06 +0000
Subject: [PATCH 112/131] fix: controlflow: a state with a transition to itself
 was passed twice in a loop

---
 pyverilog/controlflow/controlflow_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 5860fd9..2a7a082 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -283,7 +283,7 @@ class FiniteStateMachine(object):
             return paths
         nextnodes = set(self.fsm[node].values()) - visited
         for n in nextnodes:
-            r = self._looppath(src, n, visited=visited | set([node]))
+            r = self._looppath(src, n, visited=visited | set([n]))
             if len(r) > 0:
                 for np in r:
                     paths.add((node,) + np)
-- 
2.43.0


From c5df269343da8c96ee35eba5e83bb730868a111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:56 +0000
Subject: [PATCH 113/131] fix: transition: a bitwise operation on the state and
 a constant is not a comparison

---
 pyverilog/controlflow/transition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index ecec13f..f21224a 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -89,6 +89,9 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
         if ret:
             return ret
 
+    if not signaltype.isCompare(cond.operator):
+        return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
+
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-- 
2.43.0


From 004a3852310a0ac53e96139a3bc531e9f01f618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 114/131] fix: preprocessor: sources given as text were read
 after all files

---
 pyverilog/vparser/preprocessor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 4a45548..a2c1736 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -51,12 +51,11 @@ class VerilogPreprocessor(object):
                     f.write(source)
 
                 self.temp_files_paths.append(temp_path)
+                self.filelist.append(temp_path)
 
             else: # else if it is normal verilog file path
                 self.filelist.append(source)
 
-        self.filelist += self.temp_files_paths
-
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
             iverilog = 'iverilog'
-- 
2.43.0


From a2ca29f3908d71452b0039d785357f815a17a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:07 +0000
Subject: [PATCH 115/131] fix: preprocessor: a single source was split into its
 characters

---
 pyverilog/vparser/preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index a2c1736..d69e6a9 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -31,7 +31,9 @@ import subprocess
 class VerilogPreprocessor(object):
     def __init__(self, filelist, outputfile='pp.out', include=None, define=None):
 
-        if not isinstance(filelist, (tuple, list)):
+        if isinstance(filelist, str):
+            filelist = [filelist]
+        elif not isinstance(filelist, (tuple, list)):
             filelist = list(filelist)
 
         # Elements in `filelist` can either be raw Verilog files, or Verilog code
-- 
2.43.0


From 30894476f0a4a8185f5ba36fa23556c34140468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 116/131] fix: preprocessor: temporary files were left behind
 when iverilog cannot be started

---
 pyverilog/vparser/preprocessor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index d69e6a9..a6d6e19 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -84,11 +84,12 @@ class VerilogPreprocessor(object):
 
     def preprocess(self):
         cmd = self.iv + list(self.filelist)
-        subprocess.call(cmd)
-
-        # Removing the temporary files that were created
-        for temp_file_path in self.temp_files_paths:
-            os.remove(temp_file_path)
+        try:
+            subprocess.call(cmd)
+        finally:
+            # Removing the temporary files that were created
+            for temp_file_path in self.temp_files_paths:
+                os.remove(temp_file_path)
 
 
 def preprocess(
-- 
2.43.0


From b31bb6d5722f8376b50230f0f450f18ed24b07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 117/131] fix: preprocessor: errors of iverilog were ignored
 and a truncated or old text parsed

---
 pyverilog/vparser/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index a6d6e19..d324261 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -85,7 +85,7 @@ class VerilogPreprocessor(object):
     def preprocess(self):
         cmd = self.iv + list(self.filelist)
         try:
-            subprocess.call(cmd)
+            subprocess.check_call(cmd)
         finally:
             # Removing the temporary files that were created
             for temp_file_path in self.temp_files_paths:
-- 
2.43.0


From 759389c305583115c1010cef330d2f3e0f7eee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:44 +0000
Subject: [PATCH 118/131] fix: parser: lines, directives and the net type of an
 earlier text were kept

---
 pyverilog/vparser/lexer.py  | 5 +++++
 pyverilog/vparser/parser.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 58587a3..27d328b 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -41,6 +41,11 @@ class VerilogLexer(object):
     def reset_lineno(self):
         self.lexer.lineno = 1
 
+    def reset(self):
+        self.directives = []
+        self.default_nettype = 'wire'
+        self.reset_lineno()
+
     def get_directives(self):
         return tuple(self.directives)
 
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 58f1886..0c7619a 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -74,6 +74,7 @@ class VerilogParser(object):
 
     # Returns AST
     def parse(self, text, debug=0):
+        self.lexer.reset()
         return self.parser.parse(text, lexer=self.lexer, debug=debug)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 058435502d30ab1d9ddaedd6fdb7195fafbf6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 119/131] fix: lexer: dump_tokens raised AttributeError on an
 illegal character

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 27d328b..0fbe9f5 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -282,7 +282,7 @@ class VerilogLexer(object):
 
 def dump_tokens(text):
     def my_error_func(msg, a, b):
-        sys.write(msg + "\n")
+        sys.stderr.write(msg + "\n")
         sys.exit()
 
     lexer = VerilogLexer(error_func=my_error_func)
-- 
2.43.0


From de294ca771a8d3465b136ed873de99d751ccb7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:32 +0000
Subject: [PATCH 120/131] fix: instances with too many ports or parameters
 raised IndexError

---
 pyverilog/dataflow/bindvisitor.py   | 4 ++++
 pyverilog/dataflow/signalvisitor.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index d646637..fb96da0 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -163,6 +163,8 @@ class BindVisitor(NodeVisitor):
         scope = self.frames.getCurrent()
 
         paramnames = self.moduleinfotable.getParamNames(node.module)
+        if len(node.parameterlist) > len(paramnames):
+            raise verror.FormatError("Too many parameters for %s" % nodename)
         for paramnames_i, param in enumerate(node.parameterlist):
             self.addInstanceParameterBind(param, paramnames[paramnames_i])
             value = self.optimize(self.getTree(param.argname, current))
@@ -180,6 +182,8 @@ class BindVisitor(NodeVisitor):
         self.copyFrameInfo(new_current)
 
         ioports = self.moduleinfotable.getIOPorts(node.module)
+        if len(node.portlist) > len(ioports):
+            raise verror.FormatError("Too many ports for %s" % nodename)
         for ioport_i, port in enumerate(node.portlist):
             if port.portname is not None and not (port.portname in ioports):
                 raise verror.FormatError("No such port: %s in %s" %
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 83ffbae..e2e8ec7 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -140,6 +140,8 @@ class SignalVisitor(NodeVisitor):
         scope = self.frames.getCurrent()
 
         paramnames = self.moduleinfotable.getParamNames(node.module)
+        if len(node.parameterlist) > len(paramnames):
+            raise verror.FormatError("Too many parameters for %s" % nodename)
         for paramnames_i, param in enumerate(node.parameterlist):
             paramname = paramnames[paramnames_i] if param.paramname is None else param.paramname
             if paramname not in paramnames:
-- 
2.43.0


From 442cac2b60c08b5f295ea56aacc9c41f97720f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:02 +0000
Subject: [PATCH 121/131] fix: bindvisitor: an always block with an undefined
 clock or reset lost it silently

---
 pyverilog/dataflow/bindvisitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index fb96da0..a404903 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -278,10 +278,14 @@ class BindVisitor(NodeVisitor):
 
             if signaltype.isClock(signame):
                 clock_name = self.searchTerminal(signame, scope)
+                if clock_name is None:
+                    raise verror.DefinitionError('No such signal: %s' % signame)
                 clock_edge = l.type
                 clock_bit = bit
             elif signaltype.isReset(signame):
                 reset_name = self.searchTerminal(signame, scope)
+                if reset_name is None:
+                    raise verror.DefinitionError('No such signal: %s' % signame)
                 reset_edge = l.type
                 reset_bit = bit
             else:
-- 
2.43.0


From c3431092eaaf8eaf5be22095958cd83aae1e83bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:45 +0000
Subject: [PATCH 122/131] fix: graphgen: a system function was left out of the
 graph

---
 pyverilog/dataflow/graphgen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/graphgen.py b/pyverilog/dataflow/graphgen.py
index a23c406..a0f2cd5 100644
--- a/pyverilog/dataflow/graphgen.py
+++ b/pyverilog/dataflow/graphgen.py
@@ -87,6 +87,10 @@ class VerilogGraphGenerator(object):
         name = self.add_RenamedDF(node, parent, color=color, edge_label=edge_label)
         self.generic_visit(node, name, color=color, edge_label=None)
 
+    def visit_DFSyscall(self, node, parent, color='black', edge_label=None):
+        name = self.add_RenamedDF(node, parent, color=color, edge_label=edge_label)
+        self.generic_visit(node, name, color=color, edge_label=None)
+
     def visit_DFPartselect(self, node, parent, color='black', edge_label=None):
         name = self.add_RenamedDF(node, parent, color=color, edge_label=edge_label)
         if node.var is not None:
-- 
2.43.0


From fb2bef0519ee193563bd3611bb2ec8403ead1e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:15 +0000
Subject: [PATCH 123/131] fix: identifierreplace: a replaced identifier lost
 its scope and line

---
 pyverilog/utils/identifierreplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index 65355b3..2fc2fb1 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -74,5 +74,5 @@ class IdentifierReplace(object):
 
     def visit_Identifier(self, node):
         if node.name in self.ids:
-            return vast.Identifier(self.ids[node.name])
+            return vast.Identifier(self.ids[node.name], node.scope, lineno=node.lineno)
         return node
-- 
2.43.0


From 337081c529458deb78806821b2b8b511ae9ffdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:50 +0000
Subject: [PATCH 124/131] fix: identifierreplace: identifiers in a shared node
 were replaced twice

---
 pyverilog/utils/identifierreplace.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index 2fc2fb1..6693afc 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -48,8 +48,16 @@ def children_items(node):
 class IdentifierReplace(object):
     def __init__(self, ids):
         self.ids = ids
+        self.visited = {}  # a node can be shared (e.g. the width of a list)
 
     def visit(self, node):
+        if id(node) in self.visited:
+            return self.visited[id(node)][1]
+        ret = self._visit(node)
+        self.visited[id(node)] = (node, ret)
+        return ret
+
+    def _visit(self, node):
         method = 'visit_' + node.__class__.__name__
         visitor = getattr(self, method, self.generic_visit)
         ret = visitor(node)
-- 
2.43.0


From 1bdd4b41435f125999685e83e54761727058240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 125/131] fix: a negative constant did not count as true in
 generate-if and loop conditions

---
 pyverilog/dataflow/bindvisitor.py   | 6 +++---
 pyverilog/dataflow/signalvisitor.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index a404903..e26e7b3 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -315,7 +315,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
 
-            if rslt.value > 0:
+            if rslt.value != 0:
                 label = self._if_true(node)
                 if node.true_statement is not None:
                     self.copyBlockingAssigns(current + ScopeLabel(label, 'if'), current)
@@ -471,7 +471,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError(("Can not process the for-statement. "
                                           "for-condition should be evaluated statically."))
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
@@ -515,7 +515,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError(("Can not process the while-statement. "
                                           "while-condition should be evaluated statically."))
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2e8ec7..2116bba 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -189,7 +189,7 @@ class SignalVisitor(NodeVisitor):
             rslt = self.optimize(tree)
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
-            if rslt.value > 0:
+            if rslt.value != 0:
                 label = self._if_true(node)
             else:
                 label = self.labels.get(self.frames.getLabelKey('if'))
@@ -307,7 +307,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError(("Can not process the for-statement. "
                                           "for-condition should be evaluated statically."))
             # loop termination
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
-- 
2.43.0


From 0f86ef8876335a157a235480afeb657f0869879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:04 +0000
Subject: [PATCH 126/131] fix: a function called outside an always block reads
 the values its own variables were given

---
 pyverilog/dataflow/visit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index d63e763..50bf909 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -784,7 +784,7 @@ class FrameTable(object):
 
     def getBlockingAssign(self, dst, scope):
         p = scope
-        while self.dict[p].isAlways():
+        while self.dict[p].isAlways() or self.dict[p].isFunctioncall():
             ret = self.dict[p].getBlockingAssign(dst)
             if ret:
                 return ret
-- 
2.43.0


From d4fab75697da1e0423786c726d65ebd4f310a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:24 +0000
Subject: [PATCH 127/131] fix: a local variable of a function or task is not a
 signal of the module

---
 pyverilog/dataflow/signalvisitor.py | 4 ++++
 pyverilog/dataflow/visit.py         | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 2116bba..5ef5aa4 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -288,6 +288,10 @@ class SignalVisitor(NodeVisitor):
         self._case(comp, caselist[1:])
 
     def visit_ForStatement(self, node):
+        if self.frames.isFunctiondef() or self.frames.isTaskdef():
+            # processed at each call
+            return
+
         # pre-statement
         current = self.frames.getCurrent()
         pre_right = self.getTree(node.pre.right, current)
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 50bf909..0fbc1bf 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -674,6 +674,9 @@ class FrameTable(object):
         if self.task_def and isinstance(var, Input):
             self.dict[self.current].addTaskPort(var)
             return
+        if self.function_def or self.task_def:
+            # a local variable belongs to each call, not to the module
+            return
         self.dict[self.current].addSignal(var)
 
     def addConst(self, var):
-- 
2.43.0


From a11d9479c0aedc9cfef83fa6fd2c3e46b9f23f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:53 +0000
Subject: [PATCH 128/131] fix: a task with an output or inout is accepted

---
 pyverilog/vparser/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0c7619a..fd99baf 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -2219,8 +2219,7 @@ class VerilogParser(object):
         """
         if isinstance(p[1], Decl):
             for r in p[1].list:
-                if (not isinstance(r, Input) and not isinstance(r, Reg) and
-                        not isinstance(r, Integer)):
+                if not isinstance(r, (Input, Output, Inout, Reg, Integer)):
                     raise ParseError("Syntax Error")
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
-- 
2.43.0


From 2a26dcedf915ecd5eecae3177680e16366ace895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:13 +0000
Subject: [PATCH 129/131] fix: the column of an error counts from the start of
 its line

---
 pyverilog/vparser/lexer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 0fbe9f5..49dabba 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -269,12 +269,8 @@ class VerilogLexer(object):
         self.lexer.skip(1)
 
     def _find_tok_column(self, token):
-        i = token.lexpos
-        while i > 0:
-            if self.lexer.lexdata[i] == '\n':
-                break
-            i -= 1
-        return (token.lexpos - i) + 1
+        line_start = self.lexer.lexdata.rfind('\n', 0, token.lexpos) + 1
+        return (token.lexpos - line_start) + 1
 
     def _make_tok_location(self, token):
         return (token.lineno, self._find_tok_column(token))
-- 
2.43.0


From e6abe9d29949ddf16feec17737350cb0980c96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:52 +0000
Subject: [PATCH 130/131] fix: a block in a function called outside an always
 block passes on the values it assigned

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index e26e7b3..1a4ce20 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -558,7 +558,7 @@ class BindVisitor(NodeVisitor):
 
         self.generic_visit(node)
         self.frames.setCurrent(current)
-        if self.frames.isAlways():
+        if self.frames.isAlways() or self.frames.isFunctioncall():
             self.copyBlockingAssigns(current + ScopeLabel(label, 'block'), current)
 
     def visit_Assign(self, node):
-- 
2.43.0


From b1c185ff082c1a14215002bcd5ac69ac2e20462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:20 +0000
Subject: [PATCH 131/131] fix: a condition read the values its own branches
 assign by blocking assignment

---
 pyverilog/dataflow/visit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 0fbc1bf..d20c1e0 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -487,6 +487,7 @@ class Frame(object):
         return self.modulename
 
     def setBlockingAssign(self, dst, bind):
+        bind = copy.copy(bind)  # the tree of the original changes with later assignments
         if not dst in self.blockingassign:
             self.blockingassign[dst] = (bind,)
             return
-- 
2.43.0

