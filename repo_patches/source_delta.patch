From 0b1e7c98a11bb6697fbd56f1d8d1f4b434e547cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 01/75] fix: compound assignment on a record field applies its
 operator

'r.x += e' was compiled as 'r.x = e'.
---
 amanda/compiler/parse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c1dff76..4ed6122 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1001,7 +1001,13 @@ class Parser:
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                expr = ast.Set(target=expr, expr=self.assignment())
+                # The field read and the field write need separate nodes
+                expr = ast.Set(
+                    target=expr,
+                    expr=ast.BinOp(
+                        token, left=copy.deepcopy(expr), right=self.equality()
+                    ),
+                )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
-- 
2.43.0


From 068faff4f1408d81cad4c5a34df1776e2c8b2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 02/75] fix: give every call frame its own base in the value
 stack

A function without arguments and locals kept bp = -1, so returning from it
did not restore the caller's stack; frames also started past values left by
frames that had already returned, which made the stack grow with every call.
---
 amanda/vm/src/vm.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f29b003..329e562 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -148,6 +148,8 @@ impl<'a> AmaVM<'a> {
     }
 
     fn reserve_stack_space(&mut self, size: usize) {
+        //Values above sp were left behind by frames that already returned
+        self.values.truncate((self.sp + 1) as usize);
         let new_len = self.values.len() + size;
         self.values.resize(new_len, AmaValue::None);
         self.sp = self.values.len() as isize - 1;
@@ -355,14 +357,9 @@ impl<'a> AmaVM<'a> {
                     let fn_val = self.op_pop();
                     match fn_val {
                         AmaValue::Func(mut func) => {
-                            if args > 0 {
-                                func.bp = self.sp - (args - 1);
-                                let extra = func.locals - args as usize;
-                                self.reserve_stack_space(extra);
-                            } else if func.locals > 0 {
-                                func.bp = self.sp + 1;
-                                self.reserve_stack_space(func.locals);
-                            }
+                            func.bp = self.sp - (args - 1);
+                            let extra = func.locals - args as usize;
+                            self.reserve_stack_space(extra);
                             //Set return addr in caller
                             self.frames.peek_mut().ip += 1;
                             if let FuncModule::Imported(mod_idx) = func.module {
-- 
2.43.0


From 13d206bafd9ea157c37909d37845c7c3fce6087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 03/75] fix: reserve space for all the locals of a module's top
 level

Only 256 slots were reserved; further locals overlapped the operands.
---
 amanda/vm/src/vm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 329e562..2722732 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -101,6 +101,9 @@ impl<'a> AmaVM<'a> {
     }
 
     fn init(&mut self, main: AmaFunc<'a>) {
+        if main.locals > self.values.len() {
+            self.values.resize(main.locals, AmaValue::None);
+        }
         self.sp = self.values.len() as isize - 1;
         self.frames.push(main).unwrap();
         self.frames.peek_mut().bp = if self.sp > -1 { 0 } else { -1 };
-- 
2.43.0


From 3f808f7be64d367c23b5f4ddeb5fa8367b552ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 04/75] fix: discard the value of an expression used as an
 instruction

---
 amanda/compiler/codegen.py | 31 ++++++++++++++++++++-----------
 amanda/vm/src/opcode.rs    |  4 +++-
 amanda/vm/src/vm.rs        |  3 +++
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11a55e3..d2cb13d 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -121,6 +121,8 @@ class OpCode(Enum):
     BIND_MATCH_ARGS = auto()
     # Checks if the variant at TOS is has the integer tag specified by the 64-bit argument.
     MATCH_VARIANT = auto()
+    # Discards the value at TOS.
+    POP = auto()
     # Stops execution of the VM. Must always be added to stop execution of the vm
     HALT = 0xFF
 
@@ -129,7 +131,7 @@ class OpCode(Enum):
         # uses
         num_ops = len(list(OpCode))
         assert (
-            num_ops == 43
+            num_ops == 44
         ), f"Please update the size of ops after adding a new Op. New size: {num_ops}"
         match self:
             case (
@@ -441,14 +443,24 @@ class ByteGen:
 
     def compile_block(self, node):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_instructions(node.children)
         self.exit_block()
 
+    def gen_instructions(self, nodes: Sequence[ast.ASTNode]):
+        for node in nodes:
+            self.gen(node)
+            # The value of an expression used as an instruction is not needed
+            if isinstance(node, ast.Expr) and not isinstance(
+                node, (ast.Assign, ast.IndexSet, ast.Set)
+            ):
+                self.append_op(OpCode.POP)
+
     def gen_yieldblock(self, node: ast.YieldBlock):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_instructions(node.children)
+        # Every block of an 'iguala' leaves exactly one value on the stack
+        if not node.children or not isinstance(node.children[-1], ast.Produz):
+            self.load_const("falso")
         self.exit_block()
 
     def get_variant_index(self, variant: Variant) -> int:
@@ -695,8 +707,7 @@ class ByteGen:
         self.gen(node.condition)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Block
-        for child in block.children:
-            self.gen(child)
+        self.gen_instructions(block.children)
         self.append_op(OpCode.JUMP, loop)
         # END LOOP
         self.patch_label_loc(after_loop)
@@ -731,8 +742,7 @@ class ByteGen:
         self.append_op(OpCode.OP_LESS)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Body
-        for child in block.children:
-            self.gen(child)
+        self.gen_instructions(block.children)
         # update: control_var += inc
         if not range_expr.inc:
             self.load_const(1)
@@ -842,8 +852,7 @@ class ByteGen:
 
         if not func_symbol.is_builtin():
             self.enter_block(block.symbols)
-            for child in block.children:
-                self.gen(child)
+            self.gen_instructions(block.children)
             self.exit_block()
 
         # default return
diff --git a/amanda/vm/src/opcode.rs b/amanda/vm/src/opcode.rs
index 7bb0f8d..2d6e9bc 100644
--- a/amanda/vm/src/opcode.rs
+++ b/amanda/vm/src/opcode.rs
@@ -45,12 +45,13 @@ pub enum OpCode {
     BuildVariant,
     BindMatchArgs,
     MatchVariant,
+    Pop,
     Halt = 255,
 }
 
 impl From<&u8> for OpCode {
     fn from(number: &u8) -> Self {
-        let ops: [OpCode; 42] = [
+        let ops: [OpCode; 43] = [
             OpCode::Mostra,
             OpCode::LoadConst,
             OpCode::LoadName,
@@ -93,6 +94,7 @@ impl From<&u8> for OpCode {
             OpCode::BuildVariant,
             OpCode::BindMatchArgs,
             OpCode::MatchVariant,
+            OpCode::Pop,
         ];
         if *number == 0xff {
             OpCode::Halt
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 2722732..ff41a7f 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -543,6 +543,9 @@ impl<'a> AmaVM<'a> {
                         self.op_push(val);
                     }
                 }
+                OpCode::Pop => {
+                    self.op_pop();
+                }
                 OpCode::Halt => break,
             }
             self.frames.peek_mut().ip += 1;
-- 
2.43.0


From 57121f29618743a865fc271699324f65b1218498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 05/75] fix: assignments chained through record fields and
 vector items keep their value

---
 amanda/compiler/codegen.py | 51 ++++++++++++++++++++++++++++----------
 amanda/compiler/parse.py   |  6 +++--
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index d2cb13d..21dc758 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -577,13 +577,7 @@ class ByteGen:
     # TODO: Test whether chained assign still with
     # mixture of normal assigns and index set (Potential bug)
     def gen_assign(self, node):
-        expr = node.right
-        self.gen(expr)
-        # Deal with consecutive assignments
-        if isinstance(expr, ast.Assign):
-            var_sym = expr.left.var_symbol
-            name = expr.left.token.lexeme
-            self.load_variable(var_sym)
+        self.gen_assigned_value(node.right)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -591,6 +585,41 @@ class ByteGen:
         var_sym = var.var_symbol
         self.set_variable(var_sym)
 
+    def gen_assigned_value(self, expr: ast.Expr):
+        """Generates the right side of an assignment. Deals with consecutive
+        assignments, whose value must still be available after being stored"""
+        match expr:
+            case ast.Assign():
+                self.gen(expr)
+                self.load_variable(expr.left.var_symbol)
+            case ast.Set() | ast.IndexSet():
+                self.gen_store(expr, keep_value=True)
+            case _:
+                self.gen(expr)
+                return
+        self.gen_auto_cast(expr.prom_type)
+
+    def gen_store(self, node: ast.Set | ast.IndexSet, keep_value: bool):
+        match node:
+            case ast.Set():
+                self.gen(node.target)
+                self.gen_assigned_value(node.expr)
+                op = OpCode.SET_PROP
+            case ast.IndexSet():
+                self.gen_indexget(node.index, gen_get=False)
+                self.gen_assigned_value(node.value)
+                op = OpCode.OP_INDEX_SET
+        if not keep_value:
+            self.append_op(op)
+            return
+        idx = self.func_locals.setdefault(
+            f"_valor_{len(self.func_locals)}_", len(self.func_locals)
+        )
+        self.append_op(OpCode.SET_LOCAL, idx)
+        self.append_op(OpCode.GET_LOCAL, idx)
+        self.append_op(op)
+        self.append_op(OpCode.GET_LOCAL, idx)
+
     def gen_unaryop(self, node):
         self.gen(node.operand)
         operator = node.token.token
@@ -937,9 +966,7 @@ class ByteGen:
             self.append_op(OpCode.OP_INDEX_GET)
 
     def gen_indexset(self, node):
-        self.gen_indexget(node.index, gen_get=False)
-        self.gen(node.value)
-        self.append_op(OpCode.OP_INDEX_SET)
+        self.gen_store(node, keep_value=False)
 
     def gen_fmtstr(self, node):
         for part in node.parts:
@@ -968,9 +995,7 @@ class ByteGen:
         self.append_op(OpCode.GET_PROP)
 
     def gen_set(self, node: ast.Set):
-        self.gen(node.target)
-        self.gen(node.expr)
-        self.append_op(OpCode.SET_PROP)
+        self.gen_store(node, keep_value=False)
 
     def gen_unwrap(self, node: ast.Unwrap):
         self.gen(node.option)
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 4ed6122..e50360a 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1000,8 +1000,8 @@ class Parser:
             token = Token(token, lexeme, line=line, col=col)
 
             self.consume(current)
+            # The read and the write need separate nodes
             if isinstance(expr, ast.Get):
-                # The field read and the field write need separate nodes
                 expr = ast.Set(
                     target=expr,
                     expr=ast.BinOp(
@@ -1012,7 +1012,9 @@ class Parser:
                 expr = ast.IndexSet(
                     token,
                     expr,
-                    ast.BinOp(token, left=expr, right=self.equality()),
+                    ast.BinOp(
+                        token, left=copy.deepcopy(expr), right=self.equality()
+                    ),
                 )
             else:
                 expr = ast.Assign(
-- 
2.43.0


From 1723ddf9e4c2e5225e20bc425896f7b6cb4acb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 06/75] fix: a record field can be assigned from a field of
 another record

---
 amanda/compiler/codegen.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 21dc758..ce49111 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -602,7 +602,7 @@ class ByteGen:
     def gen_store(self, node: ast.Set | ast.IndexSet, keep_value: bool):
         match node:
             case ast.Set():
-                self.gen(node.target)
+                self.gen_get(node.target, gen_get=False)
                 self.gen_assigned_value(node.expr)
                 op = OpCode.SET_PROP
             case ast.IndexSet():
@@ -986,13 +986,11 @@ class ByteGen:
             self.gen(element)
         self.append_op(OpCode.BUILD_VEC, len(elements))
 
-    def gen_get(self, node: ast.Get):
+    def gen_get(self, node: ast.Get, gen_get=True):
         self.gen(node.target)
         self.load_name(node.member.lexeme)
-        assert node.parent, "Parent must not be none"
-        if node.child_of(ast.Set):
-            return
-        self.append_op(OpCode.GET_PROP)
+        if gen_get:
+            self.append_op(OpCode.GET_PROP)
 
     def gen_set(self, node: ast.Set):
         self.gen_store(node, keep_value=False)
-- 
2.43.0


From 16e90ada56b55f7997358025c19304ea5364f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 07/75] fix: reject assignments to the value of an option

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0932214..edae038 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -916,6 +916,10 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Atribuição inválida. As variáveis globais de um módulo importado não podem ser modificadas externamente"
             )
+        if target.target.eval_type.is_constructed_from(SrcBuiltins.Opcao):
+            self.error(
+                f"Atribuição inválida. O valor de uma opção não pode ser modificado por meio de um atributo"
+            )
         self.visit(expr)
         expr.prom_type = expr.eval_type.promote_to(target.eval_type)
         if not self.types_match(target.eval_type, expr.eval_type):
-- 
2.43.0


From 06dc1afe2d257f46c9c22ef05496b885c97f9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 08/75] fix: f-strings keep literal text as text and
 expressions keep the line they are on

---
 amanda/compiler/parse.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index e50360a..302fe0d 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1187,9 +1187,15 @@ class Parser:
             )
         expr.seek(0)
         self.lexer = Lexer(self.filename, expr)
+        # The expression is on the same line as the f-string
+        self.lexer.line = token.line
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
+            if not self.match(Lexer.EOF):
+                self.error(
+                    f"String de formatação inválida. Símbolo inesperado '{self.lookahead.lexeme}' depois da expressão"
+                )
         except AmandaError as e:
             raise AmandaError.syntax_error(
                 self.filename, e.message, token.line, token.col
@@ -1207,8 +1213,14 @@ class Parser:
         char = format_str.read(1)
         parts = []
 
-        tokenify_str = lambda lexeme: ast.Constant(
-            Token(TT.STRING, lexeme=lexeme, line=token.line, col=token.col)
+        # Like any other string, the lexeme includes the delimiters
+        tokenify_str = lambda text: ast.Constant(
+            Token(
+                TT.STRING,
+                lexeme=f'"{text}"',
+                line=token.line,
+                col=token.col,
+            )
         )
         # TODO: Reuse this buffer
         current_str = StringIO()
@@ -1243,7 +1255,7 @@ class Parser:
         if buff_str:
             parts.append(tokenify_str(buff_str))
         if not has_expr:
-            return parts[0]
+            return tokenify_str(buff_str)
         return ast.FmtStr(token, parts)
 
     def primary(self):
-- 
2.43.0


From c864ba6c30cd43b4d7932401b560455a709f9d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 09/75] fix: a method is identified by its type and receives
 its own receiver

---
 amanda/compiler/check/core.py   | 15 +++++++--
 amanda/compiler/codegen.py      |  9 ++++--
 amanda/compiler/symbols/base.py |  4 +++
 amanda/compiler/symbols/core.py |  5 +++
 amanda/compiler/transform.py    | 54 ++++++++-------------------------
 5 files changed, 41 insertions(+), 46 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index edae038..6c08955 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -520,7 +520,11 @@ class Analyzer(ast.Visitor):
         if node.of_type(ast.MethodDecl):
             symbol.is_property = True
         symbol.is_global = True
-        self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
+        if node.of_type(ast.MethodDecl):
+            # A method is found through its type, never by its simple name
+            self.ctx_scope.define(name, symbol)
+        else:
+            self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
         scope, params = self.define_func_scope(name, node.params)
         symbol.params = params
         return (scope, params)
@@ -1213,7 +1217,7 @@ class Analyzer(ast.Visitor):
                 )
                 self.error(message)
 
-        if sym.name in BUILTINS:
+        if self.is_builtin_fn(sym):
             self.builtin_call(BUILTINS[sym.name], node)
         elif isinstance(sym, Registo):
             self.validate_initializer(sym, node.fargs)
@@ -1227,6 +1231,13 @@ class Analyzer(ast.Visitor):
         node.symbol = sym
         return sym
 
+    def is_builtin_fn(self, sym: Typed) -> bool:
+        return (
+            type(sym) is symbols.FunctionSymbol
+            and sym.is_builtin()
+            and sym.name in BUILTINS
+        )
+
     def check_vec_op(self, fn, node):
         self.check_arity(len(node.fargs), fn, 2, False)
         vec_expr = node.fargs[0]
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index ce49111..c570936 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -488,7 +488,7 @@ class ByteGen:
         self.gen_auto_cast(node.prom_type)
 
     def load_variable(self, symbol: Symbol):
-        name = symbol.name
+        name = symbol.global_id()
         sym_module = cast(symbols.Typed, symbol).module.fpath
         typed_sym = cast(symbols.Typed, symbol)
         # Guarantee item is in the name table
@@ -866,14 +866,17 @@ class ByteGen:
     def gen_functiondecl(self, node: ast.FunctionDecl):
         func_symbol = node.symbol
 
-        name = func_symbol.name
-        name_idx = self.get_table_index(func_symbol.name, self.NAME_TABLE)
+        name = func_symbol.global_id()
+        name_idx = self.get_table_index(name, self.NAME_TABLE)
         func_end = self.new_label()
         self.append_op(OpCode.JUMP, func_end)
         func_start = self.new_label()
         block = node.block
         prev_func_locals = self.func_locals
         self.func_locals = {}
+        if isinstance(func_symbol, symbols.MethodSym):
+            # The receiver is passed before the declared parameters
+            self.func_locals["alvo"] = 0
         for param in func_symbol.params.values():
             local = param.out_id
             idx = len(self.func_locals)
diff --git a/amanda/compiler/symbols/base.py b/amanda/compiler/symbols/base.py
index 73ba8cb..2bb711b 100644
--- a/amanda/compiler/symbols/base.py
+++ b/amanda/compiler/symbols/base.py
@@ -39,6 +39,10 @@ class Symbol(ABC):
     @abstractmethod
     def is_callable(self) -> bool: ...
 
+    def global_id(self) -> str:
+        """Name by which the symbol is known at runtime, if it is global"""
+        return self.name
+
     def set_annotations(self, annotations: list[Annotation] | None):
         self.annotations: list[Annotation] = (
             annotations if annotations is not None else []
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 42c46c1..e47a5b7 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -95,6 +95,11 @@ class MethodSym(FunctionSymbol):
         self.target_ty = target_ty
         self.return_ty = return_ty
         self.is_property = True
+        self.is_global = True
+
+    def global_id(self) -> str:
+        # Several types may have methods with the same name
+        return self.target_ty.full_field_path(self.name)
 
     def __str__(self):
         params = ",".join(self.params)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index d034a5c..f8797dd 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -1,22 +1,20 @@
 from dataclasses import dataclass
 import amanda.compiler.ast as ast
 from amanda.compiler.module import Module
-from amanda.compiler.symbols.base import Type
+from amanda.compiler.symbols.base import Type, Typed
 from amanda.compiler.tokens import TokenType as TT, Token
-from amanda.compiler.symbols.core import (
-    FunctionSymbol,
-    MethodSym,
-    VariableSymbol,
-)
+from amanda.compiler.symbols.core import MethodSym
 from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 
 from typing import cast, Callable
 
 
-def var_node(name: str, tok: Token) -> ast.Variable:
-    return ast.Variable(
-        token=Token(TT.IDENTIFIER, name, tok.line, tok.col),
+def var_node(sym: Typed, tok: Token) -> ast.Variable:
+    var = ast.Variable(
+        token=Token(TT.IDENTIFIER, sym.name, tok.line, tok.col),
     )
+    var.var_symbol = sym
+    return var
 
 
 @dataclass
@@ -131,35 +129,12 @@ class ASTTransformer:
         ):
             return ast.Unwrap(option=callee.target, default_val=node.fargs[0])
 
-        var: ast.Variable
-        if callee.of_type(ast.Get) and callee.target.eval_type.is_module():
-            # A call to a function in another module via a module alias
-            sym = cast(FunctionSymbol, node.symbol)
-            # Add func symbol to symbol table
-            # Prefix with the name of the module to avoid overwriting
-            # other methods with the same name, from different modules
-            sym.name = sym.out_id = f"{callee}::{sym.name}"
-            self.program.symbols.define(sym.name, sym)
-            """
-            call_node = ast.Call(callee=var, fargs=node.fargs)
-            call_node.symbol = sym
-            return call_node
-            """
-        elif isinstance(node.symbol, MethodSym):
-            # Common method call
-            sym = cast(MethodSym, node.symbol)
-            instance = cast(ast.Get, node.callee).target
-            sym.params = {
-                "alvo": VariableSymbol("alvo", sym.return_ty, self.module),
-                **sym.params,
-            }
-            node.fargs.insert(0, instance)
-            if sym.is_external(self.module):
-                sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-                self.program.symbols.define(sym.name, sym)
-        else:
+        if not isinstance(node.symbol, MethodSym):
             raise NotImplementedError("Unknown case")
-        var = var_node(sym.name, node.token)
+        sym = cast(MethodSym, node.symbol)
+        # The receiver is passed as the first argument
+        node.fargs.insert(0, callee.target)
+        var = var_node(sym, node.token)
         call_node = ast.Call(callee=var, fargs=node.fargs)
         call_node.symbol = sym
         return call_node
@@ -169,10 +144,7 @@ class ASTTransformer:
         if node.target.eval_type.is_module():
             imp_mod = node.target.eval_type
             sym = imp_mod.module.ast.symbols.resolve(node.member.lexeme)
-            sym.name = sym.out_id = f"{imp_mod.module.fpath}::{sym.name}"
-            var = var_node(sym.name, node.token)
-            self.program.symbols.define(sym.name, sym)
-            return var
+            return var_node(sym, node.token)
         else:
             return (
                 ast.Unwrap(option=node.target, default_val=None)
-- 
2.43.0


From bbb6cf2612802591012645838a85fd741a8364b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 10/75] fix: only optional types accept values of the type they
 wrap

---
 amanda/compiler/types/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 0b19797..e379493 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -630,9 +630,7 @@ class ConstructedTy(Type):
 
     def promotion_from(self, other: Type) -> Type | None:
         # If not of type Talvez, return
-        if not isinstance(other, Primitive) and self.generic_ty.name != str(
-            Types.TOpcao
-        ):
+        if not self._is_opcao():
             return None
 
         inner_ty = self.bound_ty_args["T"]
-- 
2.43.0


From 72505ae8db94994917445c67004966ccee246077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 11/75] fix: pattern matching tries the alternatives in order,
 binds what each one matched and evaluates its target

---
 amanda/compiler/check/core.py           |   2 +-
 amanda/compiler/check/exhaustiveness.py |  46 +++++-----
 amanda/compiler/check/iguala.py         | 117 +++++++++++++++---------
 amanda/compiler/codegen.py              |  62 +++++++------
 amanda/compiler/error.py                |   4 +
 amanda/compiler/symbols/core.py         |   2 +-
 6 files changed, 134 insertions(+), 99 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 6c08955..0c4276f 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -173,7 +173,7 @@ class Analyzer(ast.Visitor):
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}{scope.count()}_"
+            symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 4e907af..8fc26e1 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -53,6 +53,15 @@ class Row:
     guard: int | None
     body: Body
 
+    def copy(self) -> Row:
+        # The same row may end up in several cases, each of which moves
+        # columns and bindings on its own
+        return Row(
+            list(self.columns),
+            self.guard,
+            Body(list(self.body.bindings), self.body.value),
+        )
+
     def remove_column(self, variable: VariableSymbol) -> Column | None:
         try:
             idx = list(map(lambda c: c.variable, self.columns)).index(variable)
@@ -210,7 +219,7 @@ class Match:
                             terms.append(
                                 Term(var, "true" if val == 1 else "false", [])
                             )
-                        case IntCons():
+                        case IntCons() | StrCons():
                             terms.append(Term(var, "_", []))
                         case VariantCons(name=name):
                             args = case.arguments
@@ -224,22 +233,6 @@ class Match:
                 if node := fallback:
                     self.add_missing_patterns(node, terms, missing)
 
-    def declare_block_symbols(self):
-        self._declare_block_symbols(self.tree)
-
-    def _declare_block_symbols(self, tree: Decision):
-        match tree:
-            case DSuccess(body):
-                for name, var in body.bindings:
-                    unwrap(body.value.symbols).define(
-                        name, VariableSymbol(name, var.type, var.module)
-                    )
-            case DSwitch(cases=cases):
-                for case in cases:
-                    self._declare_block_symbols(case.body)
-            case _:
-                pass
-
 
 @dataclass
 class IgualaCompiler:
@@ -354,18 +347,20 @@ class IgualaCompiler:
                     case _:
                         raise NotImplementedError("Invalid pattern")
 
-                if index := tested.get(key):
+                index = tested.get(key)
+                if index is not None:
                     raw_cases[index][2].append(row)
                     continue
 
                 tested[key] = len(raw_cases)
-                raw_cases.append((cons, [], [row]))
+                # Previous rows that match any value must be tried first
+                previous = [fallback.copy() for fallback in fallback_rows]
+                raw_cases.append((cons, [], [*previous, row]))
             else:
+                for _, _, case_rows in raw_cases:
+                    case_rows.append(row.copy())
                 fallback_rows.append(row)
 
-        for _, _, rows in raw_cases:
-            rows.extend(fallback_rows)
-
         cases = list(
             map(
                 lambda case: Case(
@@ -419,8 +414,8 @@ class IgualaCompiler:
                         cols.append(Column(var, pat))
                     cases[idx][2].append(Row(cols, row.guard, row.body))
             else:
-                for _, _, rows in cases:
-                    rows.append(row)
+                for _, _, case_rows in cases:
+                    case_rows.append(row.copy())
 
         return list(
             map(
@@ -453,6 +448,9 @@ class IgualaCompiler:
 
         for col in all_cols:
             match col.pattern:
+                case ast.BindingPattern(var) if var.token.lexeme == "_":
+                    # Matches anything without giving it a name
+                    pass
                 case ast.BindingPattern(var):
                     row.body.bindings.append((var.token.lexeme, col.variable))
                 case _:
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 2826a1f..0f06886 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -60,12 +60,14 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 iguala.token,
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
-    # Validate reachable blocks
-    tree.declare_block_symbols()
-    first_block = tree.diagnostics.reachable[0]
+    # Validate the block of each alternative once, including the blocks of
+    # the ones that can't be reached
+    blocks = {id(block): block for block in tree.diagnostics.reachable}
+    blocks.update({id(arm.body): arm.body for arm in iguala.arms})
+    first_block, *other_blocks = blocks.values()
     checker.visit(first_block)
     iguala.eval_type = first_block.eval_type
-    for block in tree.diagnostics.reachable[1:]:
+    for block in other_blocks:
         checker.visit(block)
         if block.eval_type != iguala.eval_type:
             checker.error(
@@ -78,11 +80,17 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 
 
 def check_binding_pattern(
-    checker: Checker, arm: ast.IgualaArm, target_ty: Type, var: ast.Variable
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.BindingPattern,
+    target_ty: Type,
 ):
-    arm.pattern.eval_type = target_ty
+    pattern.eval_type = target_ty
+    var = pattern.var
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
+    if var_name == "_":
+        return
     if var_name in scope.symbols:
         checker.error_with_loc(
             var.token, Errors.BINDING_ALREADY_IN_USE, var=var_name
@@ -94,53 +102,72 @@ def check_binding_pattern(
     )
 
 
-def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
-    match arm.pattern:
-        case ast.ADTPattern(adt, args):
-            checker.visit(adt)
-            sym = tycheck.unwrap(
-                adt.symbol if isinstance(adt, ast.Path) else adt.var_symbol
-            )
-            match sym:
-                case Variant(params=params):
-                    if not sym.is_callable() and args:
-                        checker.error(
-                            Errors.VARIANT_TAKES_NO_ARGS,
-                            variant=sym.qualified_name(),
-                        )
-                    for pattern, ty in zip(args, params):
-                        match pattern:
-                            case ast.BindingPattern(var=var):
-                                check_binding_pattern(checker, arm, ty, var)
-                            case ast.IntPattern():
-                                pattern.eval_type = Builtins.Int
-                            case ast.StrPattern():
-                                pattern.eval_type = Builtins.Texto
-                            case _:
-                                tycheck.unreachable("unknown subpattern")
-                case _:
-                    tycheck.unreachable("Unhandled ADT sym")
-            arm.pattern.eval_type = sym.uniao
-            arm.pattern.cons = VariantCons(
-                sym.tag, sym.uniao, sym.qualified_name(), sym.params
+def check_adt_pattern(
+    checker: Checker, arm: ast.IgualaArm, pattern: ast.ADTPattern
+):
+    adt, args = pattern.adt, pattern.args
+    checker.visit(adt)
+    sym = adt.symbol if isinstance(adt, ast.Path) else adt.var_symbol
+    if not isinstance(sym, Variant):
+        checker.error_with_loc(
+            adt.token, Errors.PATTERN_IS_NOT_A_VARIANT, name=adt.token.lexeme
+        )
+    if not sym.is_callable() and args:
+        checker.error(
+            Errors.VARIANT_TAKES_NO_ARGS,
+            variant=sym.qualified_name(),
+        )
+    if args and len(args) != len(sym.params):
+        checker.error_with_loc(
+            adt.token,
+            Errors.BAD_NUM_PATTERN_ARGS,
+            variant=sym.qualified_name(),
+            expected=len(sym.params),
+            received=len(args),
+        )
+    for i, (arg, ty) in enumerate(zip(args, sym.params)):
+        check_pattern(checker, arm, arg, ty)
+        if arg.eval_type != ty:
+            checker.error_with_loc(
+                arg.token,
+                Errors.INVALID_PATTERN_ARG,
+                n=i + 1,
+                param_type=ty,
+                eval_type=arg.eval_type,
             )
+    pattern.eval_type = sym.uniao
+    pattern.cons = VariantCons(
+        sym.tag, sym.uniao, sym.qualified_name(), sym.params
+    )
+
+
+def check_pattern(
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.Pattern,
+    target_ty: Type,
+):
+    match pattern:
+        case ast.ADTPattern():
+            check_adt_pattern(checker, arm, pattern)
         case ast.IntPattern():
-            arm.pattern.eval_type = Builtins.Int
+            pattern.eval_type = Builtins.Int
         case ast.StrPattern():
-            arm.pattern.eval_type = Builtins.Texto
-        case ast.BindingPattern(var=var):
-            check_binding_pattern(checker, arm, target_ty, var)
+            pattern.eval_type = Builtins.Texto
+        case ast.BindingPattern():
+            check_binding_pattern(checker, arm, pattern, target_ty)
         case _:
             tycheck.unreachable("Unhandled pattern type")
+
+
+def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
+    # 1. Check pattern
+    arm.body.symbols = symbols.Scope(checker.ctx_scope)
+    target_ty = iguala.target.eval_type
+    check_pattern(checker, arm, arm.pattern, target_ty)
     if arm.pattern.eval_type != target_ty:
         checker.error(
             Errors.INVALID_PATTERN_TYPE,
             expected=target_ty,
             received=arm.pattern.eval_type,
         )
-
-
-def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
-    # 1. Check pattern
-    arm.body.symbols = symbols.Scope(checker.ctx_scope)
-    check_pattern(checker, arm, iguala.target.eval_type)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index c570936..5f998c3 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -570,9 +570,9 @@ class ByteGen:
             self.append_op(OpCode.SET_LOCAL, self.func_locals[local])
 
     def declare_local(self, symbol: Symbol) -> int:
-        idx = len(self.func_locals)
-        self.func_locals[symbol.out_id] = idx
-        return idx
+        return self.func_locals.setdefault(
+            symbol.out_id, len(self.func_locals)
+        )
 
     # TODO: Test whether chained assign still with
     # mixture of normal assigns and index set (Potential bug)
@@ -787,7 +787,13 @@ class ByteGen:
         self.exit_block()
 
     def gen_iguala(self, node: ast.Iguala):
+        self.enter_block(node.ir.scope)
+        if not isinstance(node.target, (ast.Variable, ast.Alvo)):
+            self.gen(node.target)
+            self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
+        self.exit_block()
+        self.gen_auto_cast(node.prom_type)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
         match decision:
@@ -798,8 +804,8 @@ class ByteGen:
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
                 self.gen(body.value)
-            case DSwitch(variable=var, cases=cases):
-                self.gen_iguala_cases(node, var, cases)
+            case DSwitch(variable=var, cases=cases, fallback=fallback):
+                self.gen_iguala_cases(node, var, cases, fallback)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -821,47 +827,47 @@ class ByteGen:
                 unreachable("Unknown constructor")
 
     def gen_iguala_case_bindings(self, var: symbols.VariableSymbol, case: Case):
-        self.load_variable(var)
         match case.constructor:
-            case VariantCons(name=name):
+            case VariantCons():
                 cargs = case.arguments
                 if not cargs:
                     return
+                self.load_variable(var)
                 for arg in cargs:
                     # Declare local and push local index into stack
                     idx = self.declare_local(arg)
                     self.load_const(idx)
                 self.append_op(OpCode.BIND_MATCH_ARGS, len(cargs))
-            case x:
+            case _:
                 pass
 
     def gen_iguala_cases(
-        self, node: ast.Iguala, var: symbols.VariableSymbol, cases: list[Case]
+        self,
+        node: ast.Iguala,
+        var: symbols.VariableSymbol,
+        cases: list[Case],
+        fallback: Decision | None,
     ):
-        after_if = self.new_label()
-        after_block = self.new_label()
-
-        first_case = cases[0]
-        # Generate test
-        self.gen_iguala_test(var, first_case.constructor)
-        self.append_op(OpCode.JUMP_IF_FALSE, after_block)
-
-        self.gen_iguala_case_bindings(var, first_case)
-        self.gen_iguala_from_ir(node, first_case.body)
-        self.append_op(OpCode.JUMP, after_if)
-        self.patch_label_loc(after_block)
-
-        for case in cases[1:]:
-            after_elsif = self.new_label()
+        after_switch = self.new_label()
+        # A finite type has no fallback: when all the other cases failed,
+        # the last one must match
+        for case in cases if fallback else cases[:-1]:
+            after_case = self.new_label()
             self.gen_iguala_test(var, case.constructor)
-            self.append_op(OpCode.JUMP_IF_FALSE, after_elsif)
+            self.append_op(OpCode.JUMP_IF_FALSE, after_case)
 
             self.gen_iguala_case_bindings(var, case)
             self.gen_iguala_from_ir(node, case.body)
-            self.append_op(OpCode.JUMP, after_if)
-            self.patch_label_loc(after_elsif)
+            self.append_op(OpCode.JUMP, after_switch)
+            self.patch_label_loc(after_case)
 
-        self.patch_label_loc(after_if)
+        if fallback:
+            self.gen_iguala_from_ir(node, fallback)
+        else:
+            self.gen_iguala_case_bindings(var, cases[-1])
+            self.gen_iguala_from_ir(node, cases[-1].body)
+
+        self.patch_label_loc(after_switch)
 
     def gen_functiondecl(self, node: ast.FunctionDecl):
         func_symbol = node.symbol
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 0f466ff..418d0c9 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -13,6 +13,10 @@ class Errors:
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
     )
+    PATTERN_IS_NOT_A_VARIANT = (
+        "Padrão inválido. '{name}' não é uma variante de uma união"
+    )
+    BAD_NUM_PATTERN_ARGS = "Padrão inválido. A variante '{variant}' espera {expected} argumento(s), porém o padrão especifica {received}"
     INVALID_PATTERN_ARG = "Argumento {n} do padrão inválido. Esperava-se um argumento do tipo '{param_type}' mas recebeu o tipo '{eval_type}'"
     INVALID_PATTERN_TYPE = "Padrão inválido. Esperava-se um padrão do tipo '{expected}' mas utilizou-se um do tipo '{received}'"
     NON_EXHAUSTIVE_PATTERN_MATCH_FINITE = "A instrução iguala deve especificar alternativas para todos os valores possíveis do tipo '{ty}'. Padrões em falta: \n{missing_patterns}"
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index e47a5b7..fa4c8b8 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -170,7 +170,7 @@ class Scope:
         return len(self.symbols)
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(f"_r{self.count()}_", type, module)
+        symbol = VariableSymbol(f"_t{self.count()}_", type, module)
         self.define(symbol.name, symbol)
         return symbol
 
-- 
2.43.0


From 1097a60f5a0caed6105b4a3c0eab45cd0810143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 12/75] fix: the floor division of reals produces a real and
 only rejects a zero divisor

---
 amanda/vm/src/ama_value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index a56d77d..bb47335 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -208,10 +208,11 @@ impl<'a> AmaValue<'a> {
                 }
             }
             OpCode::OpFloorDiv => {
-                if right.take_int() == 0 {
+                if right.take_float() == 0.0 {
                     Err("não pode dividir um número por zero")
+                } else if let Type::Real = res_type {
+                    Ok(AmaValue::F64((left.take_float() / right.take_float()).trunc()))
                 } else {
-                    let res_type = Type::Int;
                     arith_ops!(res_type, left, /, checked_div, right)
                 }
             }
-- 
2.43.0


From 6201979aef06e73d0dd4f7a9d02ee847161048ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 13/75] fix: an int used where a real is expected is always
 cast to real

---
 amanda/compiler/check/core.py |  1 +
 amanda/compiler/codegen.py    | 29 +++++++++++++++++------------
 amanda/compiler/transform.py  |  6 ++++++
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0c4276f..5e21a26 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -971,6 +971,7 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Atribuição inválida. incompatibilidade entre os operandos da atribuição: '{index.eval_type}' e '{value.eval_type}'"
             )
+        value.prom_type = value.eval_type.promote_to(index.eval_type)
         node.eval_type = index.eval_type
 
     def visit_converta(self, node):
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 5f998c3..df3202b 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -14,6 +14,7 @@ from amanda.compiler.symbols.base import Constructor, Symbol
 import amanda.compiler.symbols.core as symbols
 from amanda.compiler.types.builtins import Builtins
 from amanda.compiler.types.core import (
+    ConstructedTy,
     IntCons,
     Primitive,
     Registo,
@@ -430,6 +431,11 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        # Assignments leave no value on the stack, so there's nothing to cast
+        if isinstance(node, ast.Expr) and not isinstance(
+            node, (ast.Assign, ast.IndexSet, ast.Set)
+        ):
+            self.gen_auto_cast(node)
         return result
 
     def enter_block(self, scope):
@@ -485,7 +491,6 @@ class ByteGen:
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
-        self.gen_auto_cast(node.prom_type)
 
     def load_variable(self, symbol: Symbol):
         name = symbol.global_id()
@@ -515,11 +520,7 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        # TODO: Handle prom_type later
-        prom_type = node.prom_type
-        var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
-        self.gen_auto_cast(prom_type)
 
     def gen_path(self, node: ast.Path):
         # raise ValueError("Symbol should have been resolved before codegen!")
@@ -597,7 +598,8 @@ class ByteGen:
             case _:
                 self.gen(expr)
                 return
-        self.gen_auto_cast(expr.prom_type)
+        # The casts of other expressions are generated by 'gen'
+        self.gen_auto_cast(expr)
 
     def gen_store(self, node: ast.Set | ast.IndexSet, keep_value: bool):
         match node:
@@ -631,7 +633,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_binop(self, node: ast.BinOp):
         operator = node.token.token
@@ -690,7 +691,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_se(self, node):
         else_branch = node.else_branch
@@ -793,7 +793,6 @@ class ByteGen:
             self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
         self.exit_block()
-        self.gen_auto_cast(node.prom_type)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
         match decision:
@@ -927,7 +926,6 @@ class ByteGen:
             self.append_op(OpCode.BUILD_OBJ, len(node.fargs))
         else:
             self.append_op(OpCode.CALL_FUNCTION, len(node.fargs))
-        self.gen_auto_cast(node.prom_type)
 
     def gen_namedarg(self, node: ast.NamedArg):
         self.load_name(node.name.lexeme)
@@ -955,8 +953,15 @@ class ByteGen:
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
-    def gen_auto_cast(self, prom_type: Type):
-        if not prom_type or prom_type != Builtins.Real:
+    def gen_auto_cast(self, node: ast.Expr):
+        """Casts the int at the top of the stack when the context in which
+        the expression is used needs a real"""
+        if node.eval_type != Builtins.Int:
+            return
+        prom_type = node.prom_type
+        if isinstance(prom_type, ConstructedTy) and prom_type._is_opcao():
+            prom_type = prom_type.bound_ty_args["T"]
+        if prom_type != Builtins.Real:
             return
         self.load_variable(prom_type)
         self.append_op(OpCode.CAST, 0)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index f8797dd..3712268 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -36,6 +36,12 @@ class ASTTransformer:
             raise ValueError(
                 f"Node of type {type(node).__name__} has no parent."
             )
+        if isinstance(node, ast.Expr) and isinstance(new_node, ast.Expr):
+            # The new node is used in the same context as the old one
+            new_node.parent = parent
+            new_node.lineno = node.lineno
+            new_node.eval_type = node.eval_type
+            new_node.prom_type = node.prom_type
         parent.for_each_child(self.replace_child(parent, node, new_node))
         return new_node
 
-- 
2.43.0


From 1870b8deed71e1c2e688687ae3d4dc449dc79bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 14/75] fix: a function must return a value on every branch of
 its last instruction

---
 amanda/compiler/check/core.py | 40 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 5e21a26..d645f19 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -95,34 +95,40 @@ class Analyzer(ast.Visitor):
     def has_return_se(self, node):
         """Method checks for return within
         'se' statements"""
-        # If there is no else branch return None immediately
-        return (
-            False
-            if not node.else_branch
-            else self.has_return(node.then_branch)
-            and self.has_return(node.else_branch)
+        # Every branch must return, including the one that is executed
+        # when no condition is true
+        branches = [
+            node.then_branch,
+            *(branch.then_branch for branch in node.elsif_branches),
+        ]
+        return node.else_branch is not None and all(
+            self.has_return(branch)
+            for branch in [*branches, node.else_branch]
+        )
+
+    def has_return_escolha(self, node: ast.Escolha):
+        return node.default_case is not None and all(
+            self.has_return(block)
+            for block in [
+                *(case.block for case in node.cases),
+                node.default_case,
+            ]
         )
 
     def has_return_igualaarm(self, node: ast.IgualaArm):
         return self.has_return_block(node.body)
 
     def has_return_iguala(self, node: ast.Iguala):
-        has_return = True
-        has_var_pattern = False
-        for arm in node.arms:
-            has_return = has_return and self.has_return(arm)
-            if not has_return:
-                return False
-            if isinstance(arm.pattern, ast.BindingPattern):
-                has_var_pattern = True
-        return has_return and has_var_pattern
+        # The alternatives of an 'iguala' always cover all of the values
+        return all(self.has_return(arm) for arm in node.arms)
 
     def has_return_seiguala(self, node: ast.SeIguala):
         """Method checks for return within
         'se iguala' statements"""
-        # If there is no else branch return None immediately
         return (
-            False if not node.else_branch else self.has_return(node.else_branch)
+            node.else_branch is not None
+            and self.has_return(node.then_branch)
+            and self.has_return(node.else_branch)
         )
 
     def has_return_enquanto(self, node):
-- 
2.43.0


From b05f8f3d425ed72bd5291c9a1434306b0986388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 15/75] fix: quebra and continua control the innermost loop,
 even if it is a 'para'

---
 amanda/compiler/check/core.py |  6 ++++++
 amanda/compiler/codegen.py    | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d645f19..8905aed 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1171,8 +1171,14 @@ class Analyzer(ast.Visitor):
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
+
+        in_loop_state = self.in_loop
+        self.in_loop = True
+
         self.visit(node.statement, scope)
 
+        self.in_loop = in_loop_state
+
     def visit_paraexpr(self, node: ast.ParaExpr):
         # self.visit(node.name)
         self.visit(node.range_expr)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index df3202b..530fd06 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -756,7 +756,16 @@ class ByteGen:
         control_var = scope.resolve(para_expr.name.lexeme)
         # BEGIN LOOP
         after_loop = self.new_label()
+        # Set the current loop exit
+        loop_exit_state = self.ctx_loop_exit
+        self.ctx_loop_exit = after_loop
+
         loop = self.new_label()
+        # The next iteration starts by updating the control variable
+        update = self.new_label()
+        loop_start_state = self.ctx_loop_start
+        self.ctx_loop_start = update
+
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -773,6 +782,7 @@ class ByteGen:
         # Body
         self.gen_instructions(block.children)
         # update: control_var += inc
+        self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
         else:
@@ -786,6 +796,11 @@ class ByteGen:
         self.patch_label_loc(after_loop)
         self.exit_block()
 
+        # Restore old loop start
+        self.ctx_loop_start = loop_start_state
+        # Restore old loop exit
+        self.ctx_loop_exit = loop_exit_state
+
     def gen_iguala(self, node: ast.Iguala):
         self.enter_block(node.ir.scope)
         if not isinstance(node.target, (ast.Variable, ast.Alvo)):
-- 
2.43.0


From 14ad4063d866352edc4f4b0ad1f20e80605c250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 16/75] fix: no part of the initial value of a variable can
 refer to that variable

---
 amanda/compiler/check/core.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8905aed..6291f58 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -475,6 +475,20 @@ class Analyzer(ast.Visitor):
             self.ctx_node = node
             self.error(f"O atributo '{name}' já foi declarado neste registo")
 
+    def references(self, node: ast.ASTNode, symbol: symbols.Symbol) -> bool:
+        """Checks whether an analyzed node, or one of its children, refers to
+        the variable"""
+        if isinstance(node, ast.Variable) and node.var_symbol is symbol:
+            return True
+        found = False
+
+        def check_child(child: ast.ASTNode, _: ast.ChildAttr):
+            nonlocal found
+            found = found or self.references(child, symbol)
+
+        node.for_each_child(check_child)
+        return found
+
     def visit_vardecl(self, node: ast.VarDecl):
         name = node.name.lexeme
         self.assert_can_use_ident(node, name)
@@ -490,11 +504,12 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if assign.right.token.lexeme == name:
+            self.visit(assign)
+            if self.references(assign.right, symbol):
+                self.ctx_node = node
                 self.error(
                     f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
                 )
-            self.visit(assign)
         if self.scope_depth == 0:
             symbol.is_global = True
 
-- 
2.43.0


From 8803e9d7843f70c40c014a221025768b86c6fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 17/75] fix: the value evaluated by escolha is computed once
 and its cases are transformed

---
 amanda/compiler/ast.py        |  3 ++
 amanda/compiler/check/core.py |  8 ++++
 amanda/compiler/codegen.py    |  3 ++
 amanda/compiler/transform.py  | 73 ++++++++++++++++++++---------------
 4 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 7c9aa0e..28e5215 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -289,6 +289,9 @@ class Escolha(ASTNode):
         self.expression = expression
         self.cases = cases
         self.default_case = default_case
+        self.symbols: symbols.Scope | None = None
+        # Variable that holds the value being evaluated
+        self.subject: symbols.VariableSymbol | None = None
 
 
 @dataclass
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 6291f58..4b4549a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1142,6 +1142,13 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
+        # The value being evaluated is stored, so that it's only computed once
+        self.enter_scope()
+        node.symbols = self.ctx_scope
+        node.subject = symbols.VariableSymbol(
+            "_escolha_", expr_type, self.ctx_module
+        )
+        self.define_symbol(node.subject, self.scope_depth, self.ctx_scope)
         for case in node.cases:
             case_expr = case.expression
             self.visit(case_expr)
@@ -1153,6 +1160,7 @@ class Analyzer(ast.Visitor):
         default_case = node.default_case
         if default_case:
             self.visit(default_case)
+        self.leave_scope()
 
     def visit_iguala(self, node: ast.Iguala):
         igualacheck.check_iguala(self, node)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 530fd06..98052f8 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -452,6 +452,9 @@ class ByteGen:
         self.gen_instructions(node.children)
         self.exit_block()
 
+    def gen_block(self, node: ast.Block, args=None):
+        self.compile_block(node)
+
     def gen_instructions(self, nodes: Sequence[ast.ASTNode]):
         for node in nodes:
             self.gen(node)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 3712268..a1f56e7 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -8,6 +8,8 @@ from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 
 from typing import cast, Callable
 
+from utils.tycheck import unwrap
+
 
 def var_node(sym: Typed, tok: Token) -> ast.Variable:
     var = ast.Variable(
@@ -76,39 +78,48 @@ class ASTTransformer:
             right=right,
             ty=Builtins.Bool,
         )
-        # check node
-        # transform node into ifs
-        expr = node.expression
-        # let
-        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
-        if not node.cases and not node.default_case:
-            return ast.NoOp()
-        elif not node.cases and node.default_case:
-            se_node.condition = ast.Constant(
-                new_token(TT.VERDADEIRO, "verdadeiro")
-            )
-            se_node.then_branch = node.default_case
-            return se_node
-        else:
-            first_case = node.cases[0]
-            del node.cases[0]
-            se_node.condition = equality_op(
-                left=first_case.expression,
-                right=node.expression,
+        node.for_each_child(self.empty_transform)
+
+        def subject_var() -> ast.Variable:
+            var = var_node(unwrap(node.subject), token)
+            var.eval_type = node.expression.eval_type
+            return var
+
+        # Stores the value being evaluated and then
+        # transforms node into ifs
+        block = ast.Block(
+            [
+                ast.Assign(
+                    new_token(TT.EQUAL, "="),
+                    left=subject_var(),
+                    right=node.expression,
+                )
+            ]
+        )
+        block.lineno = node.lineno
+        block.symbols = node.symbols
+        branches = [
+            ast.SenaoSe(
+                case.token,
+                equality_op(left=case.expression, right=subject_var()),
+                case.block,
             )
-            se_node.then_branch = first_case.block
-            se_node.else_branch = node.default_case
-            for case in node.cases:
-                se_node.elsif_branches.append(
-                    ast.SenaoSe(
-                        token,
-                        equality_op(
-                            left=case.expression, right=node.expression
-                        ),
-                        case.block,
-                    )
+            for case in node.cases
+        ]
+        if branches:
+            first, *others = branches
+            block.add_child(
+                ast.Se(
+                    token,
+                    first.condition,
+                    first.then_branch,
+                    elsif_branches=others,
+                    else_branch=node.default_case,
                 )
-            return se_node
+            )
+        elif node.default_case:
+            block.add_child(node.default_case)
+        return block
 
     def _is_option(self, ty: Type) -> bool:
         return ty.is_constructed_from(SrcBuiltins.Opcao)
-- 
2.43.0


From 8571cf4a93adf0854d9e9fdcdc38fb5af41e505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 18/75] fix: every inner vector built by vec has its own
 storage

---
 amanda/vm/src/modules/builtins/embutidos.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 841102d..1c6b34a 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -110,14 +110,13 @@ fn build_vec<'a>(
             _ => unreachable!("Only primitives types should have this"),
         }
     } else {
-        if size == 0 {
-            Vec::with_capacity(0)
-        } else {
+        //Each inner vector has its own storage
+        let mut container = Vec::with_capacity(size);
+        for _ in 0..size {
             let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-            let mut container = Vec::with_capacity(inner.len());
-            container.resize_with(size, || (AmaValue::Vector(alloc.alloc_ref(inner.clone()))));
-            container
+            container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
         }
+        container
     }
 }
 
-- 
2.43.0


From 0b82471ba026a30395cb20a697bec03bafe1ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 19/75] fix: leia accepts an unterminated last line and reports
 the end of the input

---
 amanda/vm/src/modules/builtins/embutidos.rs | 46 ++++++++-------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 1c6b34a..8c81934 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -29,44 +29,32 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     escreva(args, alloc)?;
 
     let mut input = String::from("");
-    //TODO: Propagate possible errors to caller
-    io::stdin().read_line(&mut input).unwrap();
-    //Remove newline at the end
-    debug_assert!(
-        input.remove(input.len() - 1) == 0xA as char,
-        "Removing wrong char"
-    );
+    match io::stdin().read_line(&mut input) {
+        Ok(0) => return Err("Não há mais linhas para ler na entrada".to_string()),
+        Ok(_) => (),
+        Err(_) => return Err("Não foi possível ler a linha introduzida".to_string()),
+    };
+    //Remove newline at the end. The last line might not have it
+    if input.ends_with('\n') {
+        input.pop();
+    }
 
     Ok(AmaValue::Str(Cow::Owned(input)))
 }
 
 fn leia_int<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let input = leia(args, alloc);
-    if input.is_ok() {
-        //TODO: Propagate possible errors to caller
-        let maybe_int = input.unwrap().take_str().parse::<i64>();
-        if let Err(_) = maybe_int {
-            Err("Valor introduzido não é um inteiro válido".to_string())
-        } else {
-            Ok(AmaValue::Int(maybe_int.unwrap()))
-        }
-    } else {
-        unreachable!()
+    let input = leia(args, alloc)?;
+    match input.take_str().parse::<i64>() {
+        Ok(int) => Ok(AmaValue::Int(int)),
+        Err(_) => Err("Valor introduzido não é um inteiro válido".to_string()),
     }
 }
 
 fn leia_real<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let input = leia(args, alloc);
-    if input.is_ok() {
-        //TODO: Propagate possible errors to caller
-        let maybe_double = input.unwrap().take_str().parse::<f64>();
-        if let Err(_) = maybe_double {
-            Err("Valor introduzido não é um número real válido".to_string())
-        } else {
-            Ok(AmaValue::F64(maybe_double.unwrap()))
-        }
-    } else {
-        unreachable!()
+    let input = leia(args, alloc)?;
+    match input.take_str().parse::<f64>() {
+        Ok(double) => Ok(AmaValue::F64(double)),
+        Err(_) => Err("Valor introduzido não é um número real válido".to_string()),
     }
 }
 
-- 
2.43.0


From 241ffb9553347fe0832f1d89b70bbd710c5e2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 20/75] fix: negating the smallest integer is a runtime error

---
 amanda/vm/src/vm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index ff41a7f..39c6a40 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -252,7 +252,10 @@ impl<'a> AmaVM<'a> {
                     let op = OpCode::from(&op);
                     if let OpCode::OpInvert = op {
                         match operand {
-                            AmaValue::Int(num) => self.op_push(AmaValue::Int(-num)), 
+                            AmaValue::Int(num) => match num.checked_neg() {
+                                Some(result) => self.op_push(AmaValue::Int(result)),
+                                None => return self.panic_and_throw("Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis"),
+                            },
                             AmaValue::F64(num) => self.op_push(AmaValue::F64(-num)), 
                             _ => panic!("Fatal error!"),
                         };
-- 
2.43.0


From 623420862857e082f4df261b38a11813a23a945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 21/75] fix: generate code for the unary plus

---
 amanda/compiler/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 98052f8..b4fb659 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -632,6 +632,9 @@ class ByteGen:
             self.append_op(OpCode.OP_INVERT)
         elif operator == TT.NAO:
             self.append_op(OpCode.OP_NOT)
+        elif operator == TT.PLUS:
+            # The value of the operand does not change
+            pass
         else:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
-- 
2.43.0


From df66ce49dad88e51dc1993981af789506c469b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 22/75] fix: vec only builds vectors of the types it can
 initialize

---
 amanda/compiler/check/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 4b4549a..87e0651 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1308,9 +1308,11 @@ class Analyzer(ast.Visitor):
                     )
 
             type_node = cast(ast.Type, node.fargs[0])
+            if not isinstance(type_node, ast.Variable):
+                self.error(f"O tipo de um vector deve ser um tipo simples")
             el_type = self.get_type(type_node)  # Attempt to get type
             # Is arg 1 a vector type?
-            if type(el_type) == Vector:
+            if not el_type.zero_initialized:
                 self.error(f"O tipo de um vector deve ser um tipo simples")
             # Set type based on dimensions
             vec_type = Vector(self.ctx_module, el_type)
-- 
2.43.0


From fd7b2f4b72b7ffb84b29139c25db39baeb783c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 23/75] fix: patterns that are not supported, or do not fit in
 an int, are diagnosed

---
 amanda/compiler/check/checker.py |  1 +
 amanda/compiler/check/core.py    | 13 ++++++++-----
 amanda/compiler/check/iguala.py  |  1 +
 amanda/compiler/parse.py         |  3 +--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index f5986d1..4a04a84 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -19,6 +19,7 @@ class Checker(Protocol):
     def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
+    def validate_int_literal(self, token: Token): ...
     def enter_ty_ctx(self, scope: symbols.Scope): ...
     def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope: ...
     def define_symbol(
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 87e0651..2c1766a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -793,17 +793,20 @@ class Analyzer(ast.Visitor):
                     f"Funções invocadas dentro de expressões em fstrings devem retornar valores coercíveis para o tipo 'texto'"
                 )
 
+    def validate_int_literal(self, token: Token):
+        if int(token.lexeme) > MAX_AMA_INT:
+            self.error_with_loc(
+                token,
+                f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{MAX_AMA_INT}'",
+            )
+
     # TODO: Rename this to literal
     def visit_constant(self, node: ast.Constant):
         constant = node.token.token
         scope = self.ctx_scope
         if constant == TT.INTEGER:
             node.eval_type = scope.resolve("int")
-            int_value = int(node.token.lexeme)
-            if int_value > MAX_AMA_INT:
-                self.error(
-                    f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{MAX_AMA_INT}'"
-                )
+            self.validate_int_literal(node.token)
         elif constant == TT.REAL:
             node.eval_type = Builtins.Real
         elif constant == TT.STRING:
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 0f06886..d227cf5 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -151,6 +151,7 @@ def check_pattern(
         case ast.ADTPattern():
             check_adt_pattern(checker, arm, pattern)
         case ast.IntPattern():
+            checker.validate_int_literal(pattern.val)
             pattern.eval_type = Builtins.Int
         case ast.StrPattern():
             pattern.eval_type = Builtins.Texto
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 302fe0d..eac4ce4 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -7,7 +7,6 @@ from amanda.compiler.tokens import Token
 from amanda.compiler.tokens import KEYWORDS as TK_KEYWORDS
 from amanda.compiler.error import AmandaError
 import amanda.compiler.ast as ast
-from utils.tycheck import unreachable
 
 
 # TODO: Stop concatenating strings. Use buffers instead
@@ -843,7 +842,7 @@ class Parser:
                     case TT.STRING:
                         return ast.StrPattern(token)
                     case _:
-                        unreachable("Unhandled constant pattern")
+                        self.error("Padrão inválido")
             case _:
                 self.error("Padrão inválido")
 
-- 
2.43.0


From 7199d78b847c036631f5b800959d63ae293aa5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 24/75] fix: diagnose the numbers that can't be read instead of
 crashing

---
 amanda/compiler/parse.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index eac4ce4..e89310d 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -15,6 +15,7 @@ class Lexer:
     EOF = "__eof__"
     # Errors that happen during tokenization
     INVALID_SYMBOL = "O símbolo '{symbol}' não foi reconhecido"
+    INVALID_INT = "Número inteiro demasiado grande"
     INVALID_STRING = "A sequência de caracteres não foi delimitada"
 
     def __init__(self, filename, src):
@@ -121,24 +122,29 @@ class Lexer:
 
     def number(self):
         result = ""
-        while self.current_char.isdigit():
+        while self.current_char.isdecimal():
             result += self.current_char
             self.advance()
         if self.current_char == ".":
             # lookahead to see next char i
-            if self.lookahead().isdigit():
+            if self.lookahead().isdecimal():
                 result += "."
                 self.advance()
-                while self.current_char.isdigit():
+                while self.current_char.isdecimal():
                     result += self.current_char
                     self.advance()
         if "." in result:
             return Token(
                 TT.REAL, float(result), self.line, self.pos - (len(result) + 1)
             )
+        try:
+            value = int(result)
+        except ValueError:
+            # Python limits the number of digits that can be converted
+            self.error(self.INVALID_INT)
 
         return Token(
-            TT.INTEGER, int(result), self.line, self.pos - (len(result) + 1)
+            TT.INTEGER, value, self.line, self.pos - (len(result) + 1)
         )
 
     def escape_seq(self, char, result, seq):
@@ -241,7 +247,7 @@ class Lexer:
             if self.current_char == "f" and self.lookahead() in ('"', "'"):
                 return self.format_str()
             return self.identifier()
-        elif self.current_char.isdigit():
+        elif self.current_char.isdecimal():
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
-- 
2.43.0


From a904a0a8a7a21f41a69f55efe2d25c97c56f6cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 25/75] fix: count the line ends inside of strings

---
 amanda/compiler/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index e89310d..bab54d7 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -159,6 +159,7 @@ class Lexer:
         result = StringIO()
         symbol = self.current_char
         start_pos = self.pos
+        start_line = self.line
         self.advance()
         while self.current_char != symbol:
             if self.current_char == "\\":
@@ -174,7 +175,11 @@ class Lexer:
                     self.advance()
                 continue
             if self.current_char == Lexer.EOF:
-                self.error(self.INVALID_STRING, line=self.line)
+                # The error is on the line where the string starts
+                self.line = start_line
+                self.error(self.INVALID_STRING)
+            if self.current_char == "\n":
+                self.line += 1
             result.write(self.current_char)
             self.advance()
         self.advance()
@@ -183,7 +188,7 @@ class Lexer:
         return Token(
             TT.STRING,
             f"{symbol}{whole_str}{symbol}",
-            self.line,
+            start_line,
             start_pos,
         )
 
-- 
2.43.0


From e89b726c2e5a31eacc73f3af08009d49902be905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 26/75] fix: diagnose source files that are not valid UTF-8

---
 amanda/compiler/error.py | 2 +-
 amanda/compiler/parse.py | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 418d0c9..a36cf65 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -94,7 +94,7 @@ def throw_error(err: AmandaError) -> NoReturn:
     filename = path.abspath(err.fpath)
     assert path.isfile(filename), "Invalid filename supplied to error"
     context = None
-    with open(filename, "r", encoding="utf8") as f:
+    with open(filename, "r", encoding="utf8", errors="replace") as f:
         for lineno, line in enumerate(f):
             if lineno == err.line - 1:
                 context = line.strip()
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index bab54d7..d228e2c 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1378,8 +1378,13 @@ class Parser:
 
 
 def parse(filename):
-    with open(filename, encoding="utf-8") as src_file:
-        src = StringIO(src_file.read())
+    try:
+        with open(filename, encoding="utf-8") as src_file:
+            src = StringIO(src_file.read())
+    except UnicodeDecodeError:
+        raise AmandaError.common_error(
+            filename, "O ficheiro não contém texto válido em UTF-8", 1
+        )
     module = Parser(filename, src).parse()
     module.tag_children()
     return module
-- 
2.43.0


From 04ab4208f89a184d4d92aac43c15e6bc7854d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 27/75] fix: name the symbol that was not recognised

---
 amanda/compiler/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index d228e2c..f061aa8 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -256,11 +256,12 @@ class Lexer:
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
+        char = self.current_char
         tok = self.common_toks()
         if tok:
             return tok
 
-        self.error(self.INVALID_SYMBOL, symbol=self.current_char)
+        self.error(self.INVALID_SYMBOL, symbol=char)
 
 
 class Parser:
-- 
2.43.0


From b34461b3c282734072f9d82973306b23f748e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 28/75] fix: the line table keeps every sequence of ops of a
 line apart

---
 amanda/compiler/codegen.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index b4fb659..e5c8977 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -198,9 +198,9 @@ class ByteGen:
         self.ctx_module: Module = module
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
-        self.src_map: dict[int, list[int]] = (
-            {}
-        )  # Maps source lines to bytecode offset
+        # Maps bytecode offsets to source lines. Each entry is a list with
+        # the start and the end of a sequence of ops and the line they're from
+        self.src_map: list[list[int]] = []
         self.modules: dict[str, int] = {}
 
     def compile_builtin(self, raw: bool = True) -> bytes | dict:
@@ -277,18 +277,10 @@ class ByteGen:
         ops.close()
 
         src_map = []
-        for lineno, offsets in self.src_map.items():
-            if lineno == 0:
-                continue
-            # Offset array must contain start and end
-            # If it only contains one value, start == end
-            if len(offsets) == 1:
-                offsets.append(offsets[0])
-            assert (
-                len(offsets) == 2
-            ), f"Found line with offset != 2: {(lineno, offsets)}"
-            offsets.append(lineno)
-            src_map.extend(offsets)
+        for entry in self.src_map:
+            # The ops that end the program are not in any line
+            if entry[-1] != 0:
+                src_map.extend(entry)
         module = {
             "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
             "builtin": 1 if self.ctx_module.builtin else 0,
@@ -318,14 +310,10 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
-        if self.lineno in self.src_map:
-            offsets = self.src_map[self.lineno]
-            if len(offsets) < 2:
-                offsets.append(self.ip)
-            elif offsets[-1] < self.ip:
-                offsets[-1] = self.ip
+        if self.src_map and self.src_map[-1][-1] == self.lineno:
+            self.src_map[-1][1] = self.ip
         else:
-            self.src_map[self.lineno] = [self.ip]
+            self.src_map.append([self.ip, self.ip, self.lineno])
         self.ip += op.op_size() // OP_SIZE
         self.ops.append((op, args))
 
@@ -789,6 +777,7 @@ class ByteGen:
         self.gen_instructions(block.children)
         # update: control_var += inc
         self.patch_label_loc(update)
+        self.lineno = node.lineno
         if not range_expr.inc:
             self.load_const(1)
         else:
-- 
2.43.0


From 741a56b66f87d2b3445b6642d164ab8759ea256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 29/75] fix: code of imported modules runs and reports errors
 as part of its module

---
 amanda/vm/src/vm.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 39c6a40..7f5bbc7 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -178,7 +178,11 @@ impl<'a> AmaVM<'a> {
         }
         module.initialize(&self.builtin_defs);
         self.ctx_module = Some(module);
-        self.init(self.ctx_module.unwrap().main);
+        let mut main = module.main;
+        if let Some(mod_idx) = self.imports.iter().position(|import| std::ptr::eq(import, module)) {
+            main.module = FuncModule::Imported(mod_idx);
+        }
+        self.init(main);
 
         loop {
             if is_main_module {
@@ -569,17 +573,21 @@ impl<'a> AmaVM<'a> {
             String::from("")
         };
         while let Ok(func) = self.frames.pop() {
+            let module = match func.module {
+                FuncModule::Imported(mod_idx) => &self.imports[mod_idx],
+                FuncModule::Main => self.main_module,
+            };
             if frames_sp == 0 {
                 err_str.push_str(&format!(
                     "Erro na linha {}: {}.",
-                    offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                    offset_to_line(func.last_i, &module.src_map),
                     error
                 ));
                 break;
             }
             err_str.push_str(&format!(
                 "    Linha {}, na função {}\n",
-                offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                offset_to_line(func.last_i, &module.src_map),
                 func.name
             ));
             frames_sp = self.frames.sp;
-- 
2.43.0


From fe24b2d3fea1c4e8114c0d4d938ca5e4ebea19a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 30/75] fix: every module of a program uses the same tags for
 the variants of unions

---
 amanda/compiler/codegen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index e5c8977..c4391ab 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -260,6 +260,8 @@ class ByteGen:
                 continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
+            # Values of a union can go from one module to another
+            compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
             mod.compiled = True
@@ -520,7 +522,7 @@ class ByteGen:
             raise ValueError("Symbol should have been resolved before codegen!")
         match symbol:
             case Variant():
-                tag = self.uniao_variants[symbol.variant_id()]
+                tag = self.get_variant_index(symbol)
                 self.load_const(tag)
                 if not symbol.is_callable():
                     # No args means we can generate the code for creating the variant here
@@ -829,8 +831,7 @@ class ByteGen:
                 self.append_op(OpCode.OP_EQ)
             case VariantCons(tag=tag, uniao=uniao):
                 variant = uniao.variant_by_tag(tag)
-                # TODO: Fix this please!!!
-                idx = self.uniao_variants[variant.variant_id()]
+                idx = self.get_variant_index(variant)
                 self.append_op(OpCode.MATCH_VARIANT, idx)
             case _:
                 unreachable("Unknown constructor")
-- 
2.43.0


From 5b061f5fefcaf584212dbc5341f3d7c63ef04b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 31/75] fix: a module runs after the modules it imports

---
 amanda/compiler/check/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 2c1766a..65d1bf1 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -430,6 +430,8 @@ class Analyzer(ast.Visitor):
                 )
 
         module.loaded = True
+        # A module runs after the modules it imports
+        self.imports[module.fpath] = self.imports.pop(module.fpath)
         self.ctx_module = prev_module
 
     def resolve_import(self, fpath: str) -> str | None:
-- 
2.43.0


From b6d45e32db5a76c38d85ee6877b6ed4f36f30a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 32/75] fix: elements of a vector of texts can be assigned

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 65d1bf1..eb68e25 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -983,7 +983,7 @@ class Analyzer(ast.Visitor):
         index = node.index
         value = node.value
         self.visit(index)
-        idx_ty = index.eval_type
+        idx_ty = index.target.eval_type
         if not idx_ty.supports_index_set():
             if idx_ty.tag == Types.TTEXTO:
                 self.error(
-- 
2.43.0


From 11407a7316042fd5a8368d205738e420e61bd50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 33/75] fix: a line break can follow the first element of a
 vector literal

---
 amanda/compiler/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index f061aa8..ce508ca 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1308,6 +1308,7 @@ class Parser:
             if not self.match(TT.RBRACKET):
                 self.skip_newlines()
                 elements.append(self.equality())
+                self.skip_newlines()
                 while not self.match(TT.RBRACKET):
                     self.consume(TT.COMMA, skip_newlines=True)
                     self.skip_newlines()
-- 
2.43.0


From 2ad3567bfcb713165c0e4cae5f0668d03f563775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 34/75] fix: the body of a loop keeps its scope when its
 condition has an iguala

---
 amanda/compiler/codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index c4391ab..4ba1f66 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -185,6 +185,8 @@ class ByteGen:
         self.ama_lineno: int = 1  # tracks lineno in input amanda src
         self.program_symtab: symbols.Scope = None  # type: ignore
         self.scope_symtab: symbols.Scope = None  # type: ignore
+        # Scopes to go back to when the current blocks are exited
+        self.outer_scopes: list[symbols.Scope] = []
         self.func_locals: dict[str, int] = {}
         self.const_table: dict[str, int] = {}
         self.uniao_variants: dict[str, int] = {}
@@ -430,11 +432,12 @@ class ByteGen:
 
     def enter_block(self, scope):
         self.depth += 1
+        self.outer_scopes.append(self.scope_symtab)
         self.scope_symtab = scope
 
     def exit_block(self):
         self.depth -= 1
-        self.scope_symtab = self.scope_symtab.enclosing_scope
+        self.scope_symtab = self.outer_scopes.pop()
         num_locals = len(self.func_locals)
 
     def compile_block(self, node):
-- 
2.43.0


From 65c272230a56e06df5061ec4a67fa82d395b4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 35/75] fix: a method can call itself

---
 amanda/compiler/check/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index eb68e25..93e26af 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -673,6 +673,8 @@ class Analyzer(ast.Visitor):
                 param.name,
                 param,
             )
+        # The method is already known inside its own body
+        target_ty.define_method(symbol)
         # Body of builtin methods are not checked
         if not symbol.is_builtin():
             self.validate_return(
@@ -683,7 +685,6 @@ class Analyzer(ast.Visitor):
             self.check_function_body(node, symbol, scope)
         # TODO: Refactor method definitions to not rely on the underlying type
         node.symbol = symbol
-        target_ty.define_method(symbol)
         self.leave_ty_ctx()
 
     def get_generic_params(
-- 
2.43.0


From 00cf5be6c7fa84be9f842d2d6929a85009de950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 36/75] fix: lists, f-strings, records and calls can have more
 than 255 parts

---
 amanda/compiler/codegen.py |  9 +++------
 amanda/vm/src/vm.rs        | 12 ++++++------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 4ba1f66..490c599 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -135,19 +135,16 @@ class OpCode(Enum):
             num_ops == 44
         ), f"Please update the size of ops after adding a new Op. New size: {num_ops}"
         match self:
+            case OpCode.CAST | OpCode.OP_UNWRAP:
+                return OP_SIZE * 2
             case (
                 OpCode.CALL_FUNCTION
-                | OpCode.CAST
                 | OpCode.BUILD_STR
                 | OpCode.BUILD_VEC
                 | OpCode.BUILD_OBJ
-                | OpCode.OP_UNWRAP
                 | OpCode.BUILD_VARIANT
                 | OpCode.BIND_MATCH_ARGS
-            ):
-                return OP_SIZE * 2
-            case (
-                OpCode.LOAD_CONST
+                | OpCode.LOAD_CONST
                 | OpCode.LOAD_NAME
                 | OpCode.SET_LOCAL
                 | OpCode.GET_LOCAL
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 7f5bbc7..57d8a91 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -363,7 +363,7 @@ impl<'a> AmaVM<'a> {
                     self.values[idx] = self.op_pop();
                 }
                 OpCode::CallFunction => {
-                    let args = self.get_byte() as isize;
+                    let args = self.get_u16_arg() as isize;
                     let fn_val = self.op_pop();
                     match fn_val {
                         AmaValue::Func(mut func) => {
@@ -413,7 +413,7 @@ impl<'a> AmaVM<'a> {
                     continue;
                 }
                 OpCode::BuildStr => {
-                    let num_parts = self.get_byte() as isize;
+                    let num_parts = self.get_u16_arg() as isize;
                     let start = (self.sp - (num_parts - 1)) as usize;
                     let mut built_str = String::new();
                     for i in start..=self.sp as usize {
@@ -425,7 +425,7 @@ impl<'a> AmaVM<'a> {
                     self.op_push(AmaValue::Str(Cow::Owned(built_str)));
                 }
                 OpCode::BuildVec => {
-                    let args = self.get_byte() as isize;
+                    let args = self.get_u16_arg() as isize;
                     if args == 0 {
                         let alloc_ref =self.alloc_ref(Vec::new());
                         self.op_push(AmaValue::Vector(alloc_ref));
@@ -440,7 +440,7 @@ impl<'a> AmaVM<'a> {
                     self.values.drain(self.sp as usize + 1..);
                 }
                 OpCode::BuildObj => {
-                    let fields_init = self.get_byte() as isize;
+                    let fields_init = self.get_u16_arg() as isize;
                     let registo = match self.op_pop() {
                         AmaValue::Registo(reg) =>  reg,  
                         _=> panic!("Expected registo")
@@ -466,7 +466,7 @@ impl<'a> AmaVM<'a> {
                     //self.values.drain(self.sp as usize + 1..);
                 }
                 OpCode::BuildVariant => {
-                    let args = self.get_byte() as isize;
+                    let args = self.get_u16_arg() as isize;
                     let tag = self.op_pop().take_int() as u64;
                     if args == 0 {
                         self.op_push(AmaValue::Variant(tag, None));
@@ -479,7 +479,7 @@ impl<'a> AmaVM<'a> {
                     self.op_push(AmaValue::Variant(tag, Some(Rc::new(args))));
                 }
                 OpCode::BindMatchArgs => {
-                    let args_n = self.get_byte() as usize;
+                    let args_n = self.get_u16_arg() as usize;
                     let start = self.sp as usize - (args_n - 1);
                     //TODO: Avoid this vec
                     let local_indices: Vec<_> = self.values.drain(start..= self.sp as usize).map(|val| val.take_int()).into_iter().collect();
-- 
2.43.0


From 5406a5d41a3e471d52d838a30ef8a83ff241cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 37/75] fix: diagnose the modules that have too many constants,
 names or locals

---
 amanda/compiler/codegen.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 490c599..9b68fed 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -310,7 +310,18 @@ class ByteGen:
             )
         self.labels[label] = self.ip
 
+    def too_big_error(self):
+        throw_error(
+            AmandaError.common_error(
+                self.ctx_module.fpath,
+                "O módulo é demasiado grande para ser executado",
+                max(self.lineno, 1),
+            )
+        )
+
     def append_op(self, op: OpCode, *args: int):
+        if op.op_size() == OP_SIZE * 3 and args[0] >= 2**16:
+            self.too_big_error()
         if self.src_map and self.src_map[-1][-1] == self.lineno:
             self.src_map[-1][1] = self.ip
         else:
@@ -475,9 +486,8 @@ class ByteGen:
         else:
             idx = len(tab)
             tab[item] = idx
-        assert (
-            idx < (2**16) - 1
-        ), f"Too many items in a single table for the current file."
+        if idx >= 2**16:
+            self.too_big_error()
         return idx
 
     def gen_constant(self, node: ast.Constant):
-- 
2.43.0


From f5deab8b4a94cadc930a2fa6617e07151b8d20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 38/75] fix: programs with many levels are compiled, or
 diagnosed, instead of overflowing the compiler's stack

---
 amanda/__main__.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 05ae739..ab92ec9 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -13,6 +13,9 @@ from amanda.compiler.check.core import Analyzer
 from amanda.compiler.codegen import ByteGen
 from amanda.libamanda import run_module
 
+# Enough for programs with thousands of levels
+MAX_RECURSION = 50_000
+
 
 def write_file(name, code):
     with open(name, "w") as output:
@@ -30,10 +33,27 @@ def run_frontend(filename) -> tuple:
         throw_error(e)
 
 
+def compile_file(filename) -> tuple[ByteGen, bytes]:
+    # The compiler descends once for every level of the program
+    recursion_limit = sys.getrecursionlimit()
+    sys.setrecursionlimit(MAX_RECURSION)
+    try:
+        module, imports = run_frontend(filename)
+        compiler = ByteGen(module)
+        return compiler, compiler.compile(imports)
+    except RecursionError:
+        sys.setrecursionlimit(recursion_limit)
+        throw_error(
+            AmandaError.common_error(
+                filename,
+                "O programa tem demasiadas instruções ou expressões encaixadas umas nas outras",
+                1,
+            )
+        )
+
+
 def run_file(args):
-    module, imports = run_frontend(args.file)
-    compiler = ByteGen(module)
-    bin_obj = compiler.compile(imports)
+    compiler, bin_obj = compile_file(args.file)
 
     if args.debug:
         write_file("debug.amasm", compiler.make_debug_asm())
-- 
2.43.0


From 7c4692a101f13e9cc43f167d13dd3446898ba8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 39/75] fix: compile the block of each alternative of an iguala
 once

---
 amanda/compiler/codegen.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 9b68fed..5eced28 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -813,10 +813,13 @@ class ByteGen:
         if not isinstance(node.target, (ast.Variable, ast.Alvo)):
             self.gen(node.target)
             self.set_variable(unwrap(node.target_binding))
-        self.gen_iguala_from_ir(node, node.ir.tree)
+        # Where the block of each alternative begins
+        self.gen_iguala_from_ir(node, node.ir.tree, {})
         self.exit_block()
 
-    def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
+    def gen_iguala_from_ir(
+        self, node: ast.Iguala, decision: Decision, blocks: dict[int, int]
+    ):
         match decision:
             case DSuccess(body):
                 for name, variable in body.bindings:
@@ -824,9 +827,17 @@ class ByteGen:
                     self.set_variable(
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
+                # Many values can lead to the same block. Its code is
+                # generated for the first and shared by the others
+                block = blocks.get(id(body.value))
+                if block is not None:
+                    self.append_op(OpCode.JUMP, block)
+                    return
+                block = blocks[id(body.value)] = self.new_label()
+                self.patch_label_loc(block)
                 self.gen(body.value)
             case DSwitch(variable=var, cases=cases, fallback=fallback):
-                self.gen_iguala_cases(node, var, cases, fallback)
+                self.gen_iguala_cases(node, var, cases, fallback, blocks)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -867,6 +878,7 @@ class ByteGen:
         var: symbols.VariableSymbol,
         cases: list[Case],
         fallback: Decision | None,
+        blocks: dict[int, int],
     ):
         after_switch = self.new_label()
         # A finite type has no fallback: when all the other cases failed,
@@ -877,15 +889,15 @@ class ByteGen:
             self.append_op(OpCode.JUMP_IF_FALSE, after_case)
 
             self.gen_iguala_case_bindings(var, case)
-            self.gen_iguala_from_ir(node, case.body)
+            self.gen_iguala_from_ir(node, case.body, blocks)
             self.append_op(OpCode.JUMP, after_switch)
             self.patch_label_loc(after_case)
 
         if fallback:
-            self.gen_iguala_from_ir(node, fallback)
+            self.gen_iguala_from_ir(node, fallback, blocks)
         else:
             self.gen_iguala_case_bindings(var, cases[-1])
-            self.gen_iguala_from_ir(node, cases[-1].body)
+            self.gen_iguala_from_ir(node, cases[-1].body, blocks)
 
         self.patch_label_loc(after_switch)
 
-- 
2.43.0


From b7851bd7824e3ec6cc887d1cea7549024a53c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 40/75] fix: a plain import exposes the module whatever way it
 was loaded before

---
 amanda/compiler/check/core.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 93e26af..72a59db 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -74,6 +74,8 @@ class Analyzer(ast.Visitor):
         # Load builtin module
         self.load_module(builtin_module, ast.UsaMode.Global)
         SrcBuiltins.init_embutidos(self.global_scope)
+        # Available in every module without being imported
+        self.builtin_names = set(self.global_scope.symbols)
 
     # Helper methods
     def has_return(self, node):
@@ -351,6 +353,22 @@ class Analyzer(ast.Visitor):
             ),
         )
 
+    def define_module_symbols(
+        self, *, imported_mod: Module, prev_module: Module
+    ):
+        self.ctx_module = prev_module
+        for name, sym in imported_mod.ast.symbols.symbols.items():
+            # The names of other modules that the module uses are its own
+            is_alias = isinstance(sym, symbols.VariableSymbol) and isinstance(
+                sym.type, ModuleTy
+            )
+            if name in self.builtin_names or is_alias:
+                continue
+            # Modules can be imported through several paths
+            if self.global_scope.get(name) is not sym:
+                self.assert_can_use_ident(self.ctx_node, name)
+                self.global_scope.define(name, sym)
+
     def define_module_items(
         self, *, imported_mod: Module, prev_module: Module, usa_items: list[str]
     ):
@@ -392,8 +410,13 @@ class Analyzer(ast.Visitor):
                         prev_module=self.ctx_module,
                         usa_items=usa_items,
                     )
-                case _:
-                    pass
+                case ast.UsaMode.Global:
+                    # The builtin module is always visible
+                    if existing_mod is not builtin_module:
+                        self.define_module_symbols(
+                            imported_mod=existing_mod,
+                            prev_module=self.ctx_module,
+                        )
             return
 
         # Check for a cycle
@@ -409,8 +432,13 @@ class Analyzer(ast.Visitor):
         self.imports[module.fpath] = module
         # TODO: Handle errors while loading another module
         match mode:
-            case ast.UsaMode.Global:
+            case ast.UsaMode.Global if module is builtin_module:
                 self.visit_module(parse(module.fpath))
+            case ast.UsaMode.Global:
+                imported_mod, _ = self.load_module_scoped(module)
+                self.define_module_symbols(
+                    imported_mod=imported_mod, prev_module=prev_module
+                )
             case ast.UsaMode.Scoped:
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
-- 
2.43.0


From 499e9b1e7ca9e46d103aaeb79edcf32ab23b6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 41/75] fix: types of different modules with the same name are
 different types

---
 amanda/compiler/types/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index e379493..f51f3db 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -407,7 +407,12 @@ class Registo(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Registo) and self.name == other.name
+        # Modules can declare types with the same name
+        return (
+            isinstance(other, Registo)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
@@ -532,7 +537,12 @@ class Uniao(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Uniao) and self.name == other.name
+        # Modules can declare types with the same name
+        return (
+            isinstance(other, Uniao)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
-- 
2.43.0


From 57b803732c9bf5fb0f68669eb0a3d23418e6ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 42/75] fix: iguala can match the variable of a module accessed
 through its alias

---
 amanda/compiler/codegen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 5eced28..dbf5575 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -810,9 +810,12 @@ class ByteGen:
 
     def gen_iguala(self, node: ast.Iguala):
         self.enter_block(node.ir.scope)
-        if not isinstance(node.target, (ast.Variable, ast.Alvo)):
+        target_binding = unwrap(node.target_binding)
+        # The variable of a module accessed through its alias is only a
+        # variable after the transformations: its value has its own binding
+        if getattr(node.target, "var_symbol", None) is not target_binding:
             self.gen(node.target)
-            self.set_variable(unwrap(node.target_binding))
+            self.set_variable(target_binding)
         # Where the block of each alternative begins
         self.gen_iguala_from_ir(node, node.ir.tree, {})
         self.exit_block()
-- 
2.43.0


From 4a26e5c1b215a69c18518c267321407763d21017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 43/75] fix: every form of usa is an instruction with its own
 end

---
 amanda/compiler/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index ce508ca..5999250 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -348,6 +348,7 @@ class Parser:
         self.consume(TT.ARROW)
         if self.match(TT.IDENTIFIER):
             alias = self.consume(TT.IDENTIFIER)
+            self.end_stmt()
             return ast.Usa(
                 token, usa_mode=ast.UsaMode.Scoped, module=module, alias=alias
             )
@@ -359,6 +360,7 @@ class Parser:
                 self.consume(TT.COMMA)
                 idents.append(self.consume(TT.IDENTIFIER).lexeme)
             self.consume(TT.RBRACKET)
+            self.end_stmt()
             return ast.Usa(
                 token, usa_mode=ast.UsaMode.Item, module=module, items=idents
             )
-- 
2.43.0


From 993b0a3e9ff2b81fe1ae847868aec6c0e2447b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 44/75] fix: an alias that is already in use is reported in the
 file that has it

---
 amanda/compiler/check/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 72a59db..408a282 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -443,6 +443,7 @@ class Analyzer(ast.Visitor):
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
                 imported_mod, _ = self.load_module_scoped(module)
+                self.ctx_module = prev_module
                 self.define_module_alias(
                     alias, importing_mod=prev_module, imported_mod=module
                 )
-- 
2.43.0


From 3693fd96ab98498e4071ddcafdbb3fcc5f144254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 45/75] fix: a program compiles the same whatever was compiled
 before it in the same process

---
 amanda/__main__.py         | 3 +++
 amanda/compiler/codegen.py | 3 ---
 amanda/compiler/module.py  | 1 -
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index ab92ec9..d03f095 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -11,6 +11,7 @@ from amanda.compiler.parse import parse
 from amanda.compiler.compile import Generator
 from amanda.compiler.check.core import Analyzer
 from amanda.compiler.codegen import ByteGen
+from amanda.compiler.types.core import Primitive
 from amanda.libamanda import run_module
 
 # Enough for programs with thousands of levels
@@ -24,6 +25,8 @@ def write_file(name, code):
 
 def run_frontend(filename) -> tuple:
     try:
+        # Methods declared by programs compiled before are not part of this one
+        Primitive.methods.clear()
         program = parse(filename)
         valid_program = Analyzer(filename, [], Module(filename)).visit_module(
             program
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index dbf5575..107f019 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -255,15 +255,12 @@ class ByteGen:
 
         compiled_imports = []
         for mod in imports.values():
-            if mod.fpath in self.modules and mod.compiled:
-                continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
             # Values of a union can go from one module to another
             compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
-            mod.compiled = True
 
         self.compile_block(program)
         assert self.depth == -1, "A block was not exited in some local scope!"
diff --git a/amanda/compiler/module.py b/amanda/compiler/module.py
index 4c89259..777a252 100644
--- a/amanda/compiler/module.py
+++ b/amanda/compiler/module.py
@@ -9,7 +9,6 @@ class Module:
     ast: Any = None
     loaded: bool = False
     builtin: bool = False
-    compiled: bool = False
 
     def __str__(self) -> str:
         _, tail = path.split(self.fpath)
-- 
2.43.0


From 861dc93f5aeca782cc4c20b90b492e2139494bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 46/75] fix: the size of a data structure is not limited by the
 stack when it is released

---
 amanda/vm/src/ama_value.rs                  | 61 ++++++++++++++++++++-
 amanda/vm/src/lib.rs                        |  9 ++-
 amanda/vm/src/modules/builtins/embutidos.rs |  4 +-
 amanda/vm/src/values/registo.rs             | 13 ++++-
 amanda/vm/src/vm.rs                         |  8 +--
 5 files changed, 83 insertions(+), 12 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index bb47335..4ca819a 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -11,6 +11,8 @@ use std::fmt;
 use std::fmt::Debug;
 use std::fmt::{Display, Formatter, Write};
 use std::hash::{Hash, Hasher};
+use std::mem;
+use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
 
 pub type RcCell<T> = Rc<RefCell<T>>;
@@ -75,12 +77,67 @@ pub enum AmaValue<'a> {
     Type(Type),
     None,
     //Heap objects
-    Vector(RcCell<Vec<AmaValue<'a>>>),
+    Vector(RcCell<Values<'a>>),
     //TODO: Change this into a Box<str>,
     Str(Cow<'a, str>),
     Registo(&'a Registo<'a>),
     RegObj(RcCell<RegObj<'a>>),
-    Variant(u64, Option<Rc<Vec<AmaValue<'a>>>>),
+    Variant(u64, Option<Rc<Values<'a>>>),
+}
+
+/// The values that a heap object holds
+#[derive(Debug)]
+pub struct Values<'a>(Vec<AmaValue<'a>>);
+
+impl<'a> From<Vec<AmaValue<'a>>> for Values<'a> {
+    fn from(values: Vec<AmaValue<'a>>) -> Self {
+        Values(values)
+    }
+}
+
+impl<'a> Deref for Values<'a> {
+    type Target = Vec<AmaValue<'a>>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl DerefMut for Values<'_> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+impl Drop for Values<'_> {
+    fn drop(&mut self) {
+        release(mem::take(&mut self.0));
+    }
+}
+
+/// Drops values together with the values that only they hold. The depth of the
+/// stack does not depend on how deep the values are.
+pub fn release(mut values: Vec<AmaValue>) {
+    while let Some(value) = values.pop() {
+        match value {
+            AmaValue::Vector(vec) => {
+                if let Ok(vec) = Rc::try_unwrap(vec) {
+                    values.append(&mut vec.into_inner().0);
+                }
+            }
+            AmaValue::RegObj(obj) => {
+                if let Ok(obj) = Rc::try_unwrap(obj) {
+                    values.extend(obj.into_inner().take_state());
+                }
+            }
+            AmaValue::Variant(_, Some(args)) => {
+                if let Ok(mut args) = Rc::try_unwrap(args) {
+                    values.append(&mut args.0);
+                }
+            }
+            _ => (),
+        }
+    }
 }
 
 impl<'a> AmaValue<'a> {
diff --git a/amanda/vm/src/lib.rs b/amanda/vm/src/lib.rs
index 807d667..d48665c 100644
--- a/amanda/vm/src/lib.rs
+++ b/amanda/vm/src/lib.rs
@@ -1,4 +1,5 @@
 use alloc::Alloc;
+use std::mem::ManuallyDrop;
 use std::slice;
 use vm::AmaVM;
 
@@ -23,10 +24,12 @@ pub extern "C" fn run_module(bin_module: *mut u8, size: u32) -> u8 {
     };
 
     let alloc = Alloc::new();
-    let (main_module, imports) = binload::load_bin(module);
+    //The definitions of a module refer to the modules. They live until the program ends
+    let modules = ManuallyDrop::new(binload::load_bin(module));
+    let (main_module, imports) = &*modules;
 
-    let mut vm = AmaVM::new(&main_module, &imports, alloc);
-    if let Err(err) = vm.run(&main_module) {
+    let mut vm = AmaVM::new(main_module, imports, alloc);
+    if let Err(err) = vm.run(main_module) {
         eprint!("{}", err);
         ERR
     } else {
diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 8c81934..f008a1b 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -102,7 +102,7 @@ fn build_vec<'a>(
         let mut container = Vec::with_capacity(size);
         for _ in 0..size {
             let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-            container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
+            container.push(AmaValue::Vector(alloc.alloc_ref(inner.into())));
         }
         container
     }
@@ -121,7 +121,7 @@ fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
         }
     }
     let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc);
-    let vec = AmaValue::Vector(alloc.alloc_ref(built_vec));
+    let vec = AmaValue::Vector(alloc.alloc_ref(built_vec.into()));
     Ok(vec)
 }
 
diff --git a/amanda/vm/src/values/registo.rs b/amanda/vm/src/values/registo.rs
index 3c44303..484818a 100644
--- a/amanda/vm/src/values/registo.rs
+++ b/amanda/vm/src/values/registo.rs
@@ -1,8 +1,9 @@
 use crate::alloc::Ref;
-use crate::ama_value::AmaValue;
+use crate::ama_value::{release, AmaValue};
 use crate::values::amatype::Type;
 use rustc_hash::FxHashMap;
 use std::iter::FromIterator;
+use std::mem;
 use std::vec::Drain;
 
 pub type Tabela<'a> = FxHashMap<AmaValue<'a>, AmaValue<'a>>;
@@ -57,4 +58,14 @@ impl<'a> RegObj<'a> {
     pub fn reg_name(&self) -> &str {
         self.registo.name
     }
+
+    pub fn take_state(&mut self) -> impl Iterator<Item = AmaValue<'a>> {
+        mem::take(&mut self.state).into_values()
+    }
+}
+
+impl Drop for RegObj<'_> {
+    fn drop(&mut self) {
+        release(self.take_state().collect());
+    }
 }
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 57d8a91..d3e6fb4 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -427,13 +427,13 @@ impl<'a> AmaVM<'a> {
                 OpCode::BuildVec => {
                     let args = self.get_u16_arg() as isize;
                     if args == 0 {
-                        let alloc_ref =self.alloc_ref(Vec::new());
+                        let alloc_ref =self.alloc_ref(Vec::new().into());
                         self.op_push(AmaValue::Vector(alloc_ref));
                         self.frames.peek_mut().ip += 1;
                         continue;
                     }
                     let start = (self.sp - (args - 1)) as usize;
-                    let elements = AmaValue::Vector(self.alloc_ref(Vec::from(&self.values[start..=self.sp as usize])));
+                    let elements = AmaValue::Vector(self.alloc_ref(Vec::from(&self.values[start..=self.sp as usize]).into()));
                     self.sp = start as isize - 1;
                     self.op_push(elements);
                     //Drop values
@@ -474,9 +474,9 @@ impl<'a> AmaVM<'a> {
                         continue;
                     } 
                     let start = (self.sp - (args - 1))  as usize;
-                    let args = self.values.drain(start..= self.sp as usize).into_iter().collect();
+                    let args: Vec<_> = self.values.drain(start..= self.sp as usize).into_iter().collect();
                     self.sp = (start - 1) as isize;
-                    self.op_push(AmaValue::Variant(tag, Some(Rc::new(args))));
+                    self.op_push(AmaValue::Variant(tag, Some(Rc::new(args.into()))));
                 }
                 OpCode::BindMatchArgs => {
                     let args_n = self.get_u16_arg() as usize;
-- 
2.43.0


From 12a53923abb05749ee423001b9fc5459b3c66693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 47/75] fix: a vector that is inside of itself can be printed

---
 amanda/vm/src/ama_value.rs | 55 ++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 4ca819a..404d71c 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -6,6 +6,7 @@ use crate::values::function::{AmaFunc, NativeFunc};
 use crate::values::registo::{RegObj, Registo};
 use std::borrow::Cow;
 use std::cell::RefCell;
+use std::collections::HashSet;
 use std::convert::From;
 use std::fmt;
 use std::fmt::Debug;
@@ -309,6 +310,45 @@ impl Clone for AmaValue<'_> {
     }
 }
 
+/// Writes a vector and the vectors inside of it. The depth of the stack does not
+/// depend on how deep the vector is. A vector that is inside of itself is
+/// written as '[...]'.
+fn fmt_vector(vec: &RcCell<Values>, f: &mut Formatter<'_>) -> fmt::Result {
+    //The vectors being written and the next element of each
+    let mut open = vec![(Rc::clone(vec), 0)];
+    let mut inside = HashSet::new();
+    inside.insert(Rc::as_ptr(vec));
+    write!(f, "[")?;
+    while let Some((vec, next)) = open.last_mut() {
+        let element = vec.borrow().get(*next).cloned();
+        let element = match element {
+            Some(element) => element,
+            None => {
+                write!(f, "]")?;
+                inside.remove(&Rc::as_ptr(vec));
+                open.pop();
+                continue;
+            }
+        };
+        if *next > 0 {
+            write!(f, ", ")?;
+        }
+        *next += 1;
+        match element {
+            AmaValue::Vector(inner) => {
+                if inside.insert(Rc::as_ptr(&inner)) {
+                    write!(f, "[")?;
+                    open.push((inner, 0));
+                } else {
+                    write!(f, "[...]")?;
+                }
+            }
+            _ => write!(f, "{}", element)?,
+        }
+    }
+    Ok(())
+}
+
 impl Display for AmaValue<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         match self {
@@ -324,20 +364,7 @@ impl Display for AmaValue<'_> {
                 let val_str = if *val { "verdadeiro" } else { "falso" };
                 write!(f, "{}", val_str)
             }
-            AmaValue::Vector(vec) => {
-                let vec = vec.borrow();
-                let mut res = String::new();
-                write!(res, "[").unwrap();
-                vec.iter().enumerate().for_each(|(i, val)| {
-                    if i == vec.len() - 1 {
-                        write!(res, "{}", val).unwrap();
-                        return;
-                    }
-                    write!(res, "{}, ", val).unwrap();
-                });
-                write!(res, "]").unwrap();
-                write!(f, "{}", res)
-            }
+            AmaValue::Vector(vec) => fmt_vector(vec, f),
             AmaValue::None => write!(f, "nulo"),
             AmaValue::RegObj(reg) => {
                 write!(f, "<Instância do tipo {}>", reg.borrow().reg_name())
-- 
2.43.0


From 92f0270e1a4d5aa0c905453faa12de57717eb7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 48/75] fix: a vector too big for the memory is a runtime error

---
 amanda/vm/src/modules/builtins/embutidos.rs | 29 +++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index f008a1b..a5efaf1 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -2,6 +2,7 @@ use super::utils::exports;
 use super::AmaResult;
 use crate::alloc::Alloc;
 use crate::ama_value::AmaValue;
+use crate::errors::AmaErr;
 use crate::values::amatype::Type;
 use crate::values::function::{FuncArgs, NativeFunc};
 use std::borrow::Cow;
@@ -87,25 +88,31 @@ fn build_vec<'a>(
     dims: &[AmaValue],
     el_type: Type,
     alloc: &mut Alloc<'a>,
-) -> Vec<AmaValue<'a>> {
+) -> Result<Vec<AmaValue<'a>>, AmaErr> {
     let size = dims[dim].take_int() as usize;
+    let mut container = Vec::new();
+    if container.try_reserve_exact(size).is_err() {
+        return Err(String::from(
+            "Não existe memória suficiente para criar o vector",
+        ));
+    }
     if dim == n_dims {
-        match el_type {
-            Type::Int => vec![AmaValue::Int(0); size as usize],
-            Type::Real => vec![AmaValue::F64(0.0); size],
-            Type::Bool => vec![AmaValue::Bool(false); size],
-            Type::Texto => vec![AmaValue::Str(Cow::Owned(String::new())); size],
+        let initial = match el_type {
+            Type::Int => AmaValue::Int(0),
+            Type::Real => AmaValue::F64(0.0),
+            Type::Bool => AmaValue::Bool(false),
+            Type::Texto => AmaValue::Str(Cow::Owned(String::new())),
             _ => unreachable!("Only primitives types should have this"),
-        }
+        };
+        container.resize(size, initial);
     } else {
         //Each inner vector has its own storage
-        let mut container = Vec::with_capacity(size);
         for _ in 0..size {
-            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
+            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc)?;
             container.push(AmaValue::Vector(alloc.alloc_ref(inner.into())));
         }
-        container
     }
+    Ok(container)
 }
 
 fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
@@ -120,7 +127,7 @@ fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
             ));
         }
     }
-    let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc);
+    let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc)?;
     let vec = AmaValue::Vector(alloc.alloc_ref(built_vec.into()));
     Ok(vec)
 }
-- 
2.43.0


From 9aa5e67bca0edb3f64f1ad1747680a1d460fae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 49/75] fix: a value can be cast to an optional

---
 amanda/compiler/codegen.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 107f019..79967df 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -978,9 +978,16 @@ class ByteGen:
         target_t = node.target.eval_type
         new_t = node.eval_type
         self.gen(node.target)
+        # An option has the representation of its value
+        if isinstance(new_t, ConstructedTy) and new_t._is_opcao():
+            new_t = new_t.bound_ty_args["T"]
         # Converting to same type, can ignore this
         # TODO: Do this in sem analysis
-        if new_t == target_t or new_t == Builtins.Indef:
+        if (
+            new_t == target_t
+            or new_t == Builtins.Indef
+            or target_t == Builtins.Nulo
+        ):
             return
         self.load_variable(new_t)
         arg = 0 if target_t != Builtins.Indef else 1
-- 
2.43.0


From 0ea677f60e0012e703e50938139472e0cc52157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 50/75] fix: casting an undefined value that holds an object is
 a runtime error

---
 amanda/vm/src/ama_value.rs      | 4 ++++
 amanda/vm/src/values/amatype.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 404d71c..13889e9 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -149,6 +149,10 @@ impl<'a> AmaValue<'a> {
             AmaValue::F64(_) => Type::Real,
             AmaValue::Bool(_) => Type::Bool,
             AmaValue::Vector(_) => Type::Vector,
+            AmaValue::RegObj(_) => Type::Registo,
+            AmaValue::Variant(_, _) => Type::Uniao,
+            AmaValue::Func(_) | AmaValue::NativeFn(_) => Type::Funcao,
+            AmaValue::None => Type::Nulo,
             _ => unimplemented!("Cannot return type for this value: {:?}", self),
         }
     }
diff --git a/amanda/vm/src/values/amatype.rs b/amanda/vm/src/values/amatype.rs
index abe3451..99f7007 100644
--- a/amanda/vm/src/values/amatype.rs
+++ b/amanda/vm/src/values/amatype.rs
@@ -7,6 +7,10 @@ pub enum Type {
     Texto,
     Bool,
     Vector,
+    Registo,
+    Uniao,
+    Funcao,
+    Nulo,
 }
 
 impl Type {
@@ -17,6 +21,10 @@ impl Type {
             Type::Texto => "texto",
             Type::Bool => "bool",
             Type::Vector => "Vector",
+            Type::Registo => "registo",
+            Type::Uniao => "uniao",
+            Type::Funcao => "funcao",
+            Type::Nulo => "nulo",
         }
     }
 }
-- 
2.43.0


From 5394bd2ff42277c4a77601c3fb98c4e00a6bfbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 51/75] fix: comparing objects, optionals and undefined values
 does not abort the program

---
 amanda/vm/src/ama_value.rs | 43 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 13889e9..c503065 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -45,18 +45,6 @@ macro_rules! comp_ops {
     };
 }
 
-macro_rules! eq_ops {
-    ($res_type: ident, $left: ident, $op: tt, $right: ident) => {
-        Ok(match $res_type {
-            Type::Int => AmaValue::Bool($left.take_int() $op $right.take_int()),
-            Type::Real => AmaValue::Bool($left.take_float() $op $right.take_float()),
-            Type::Bool => AmaValue::Bool($left.take_bool() $op $right.take_bool()),
-            Type::Texto => AmaValue::Bool($left.take_str() $op $right.take_str()),
-            _ => unimplemented!("Operand type not supported"),
-        })
-    };
-}
-
 macro_rules! is_fn {
     ($fn_name: ident, $to_match: path) => {
         pub fn $fn_name(&self) -> bool {
@@ -237,7 +225,32 @@ impl<'a> AmaValue<'a> {
         Ok(())
     }
 
+    /// Values of different types are never equal. An object is only equal to itself
+    fn equals(&self, other: &Self) -> bool {
+        match (self, other) {
+            (AmaValue::Int(left), AmaValue::Int(right)) => left == right,
+            (AmaValue::Int(_) | AmaValue::F64(_), AmaValue::Int(_) | AmaValue::F64(_)) => {
+                self.take_float() == other.take_float()
+            }
+            (AmaValue::Bool(left), AmaValue::Bool(right)) => left == right,
+            (AmaValue::Str(left), AmaValue::Str(right)) => left == right,
+            (AmaValue::None, AmaValue::None) => true,
+            (AmaValue::Vector(left), AmaValue::Vector(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::RegObj(left), AmaValue::RegObj(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::Variant(left, None), AmaValue::Variant(right, None)) => left == right,
+            (AmaValue::Variant(_, Some(left)), AmaValue::Variant(_, Some(right))) => {
+                Rc::ptr_eq(left, right)
+            }
+            _ => false,
+        }
+    }
+
     pub fn binop(left: &Self, op: OpCode, right: &Self) -> Result<Self, &'a str> {
+        match op {
+            OpCode::OpEq => return Ok(AmaValue::Bool(left.equals(right))),
+            OpCode::OpNotEq => return Ok(AmaValue::Bool(!left.equals(right))),
+            _ => (),
+        }
         let res_type = if left.is_float() || right.is_float() {
             Type::Real
         } else if left.is_int() && right.is_int() {
@@ -280,8 +293,6 @@ impl<'a> AmaValue<'a> {
             }
             OpCode::OpAnd => Ok(AmaValue::Bool(left.take_bool() && right.take_bool())),
             OpCode::OpOr => Ok(AmaValue::Bool(left.take_bool() || right.take_bool())),
-            OpCode::OpEq => eq_ops!(res_type, left, ==, right),
-            OpCode::OpNotEq => eq_ops!(res_type, left, !=,  right),
             OpCode::OpGreater => comp_ops!(res_type, left, >, right),
             OpCode::OpGreaterEq => comp_ops!(res_type, left, >=, right),
             OpCode::OpLess => comp_ops!(res_type, left, <, right),
@@ -438,9 +449,7 @@ pub fn cast<'a>(value: &AmaValue, target: Type) -> Result<AmaValue<'a>, String>
 
 impl<'a> PartialEq for AmaValue<'a> {
     fn eq(&self, other: &Self) -> bool {
-        AmaValue::binop(self, OpCode::OpEq, other)
-            .unwrap()
-            .take_bool()
+        self.equals(other)
     }
 }
 
-- 
2.43.0


From 885155aa5dc27d59b3a45a5e849588379a276596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 52/75] fix: values and arguments of unexpected types and
 numbers are reported

---
 amanda/compiler/check/core.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 408a282..67f2eed 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1015,12 +1015,11 @@ class Analyzer(ast.Visitor):
         self.visit(index)
         idx_ty = index.target.eval_type
         if not idx_ty.supports_index_set():
-            if idx_ty.tag == Types.TTEXTO:
-                self.error(
-                    f"As strings não podem ser modificadas por meio de índices"
-                    if idx_ty.tag == Types.TTEXTO
-                    else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
-                )
+            self.error(
+                f"As strings não podem ser modificadas por meio de índices"
+                if idx_ty == Builtins.Texto
+                else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
+            )
         self.visit(value)
         if not self.types_match(index.eval_type, value.eval_type):
             self.ctx_node = node
@@ -1160,7 +1159,7 @@ class Analyzer(ast.Visitor):
 
     def visit_se(self, node: ast.Se):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.error(f"a condição da instrução 'se' deve ser um valor lógico")
         self.visit(node.then_branch)
         elsif_branches = node.elsif_branches
@@ -1173,7 +1172,7 @@ class Analyzer(ast.Visitor):
         expr = node.expression
         self.visit(expr)
         expr_type = expr.eval_type
-        if expr_type.tag not in (Types.TINT, Types.TTEXTO):
+        if expr_type != Builtins.Int and expr_type != Builtins.Texto:
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
@@ -1206,7 +1205,7 @@ class Analyzer(ast.Visitor):
 
     def visit_enquanto(self, node: ast.Enquanto):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.ctx_node = node
             self.error(
                 f"a condição da instrução 'enquanto' deve ser um valor lógico"
@@ -1310,7 +1309,6 @@ class Analyzer(ast.Visitor):
         )
 
     def check_vec_op(self, fn, node):
-        self.check_arity(len(node.fargs), fn, 2, False)
         vec_expr = node.fargs[0]
         value = node.fargs[1]
         self.visit(vec_expr)
@@ -1327,9 +1325,8 @@ class Analyzer(ast.Visitor):
         if fn == BuiltinFn.VEC:
             # TODO: When vargs are implemented, make sure to
             # come here and change the way this node works
-            assert (
-                len(node.fargs) < 256
-            ), "Builtin call exceeded max number of args"
+            if len(node.fargs) > 255:
+                self.error("Um vector não pode ter mais de 254 dimensões")
             if len(node.fargs) < 2:
                 self.error(
                     f"Função 'vec' deve ser invocada com pelo menos 2 argumentos"
@@ -1337,7 +1334,7 @@ class Analyzer(ast.Visitor):
             # Is size given valid?
             for arg in node.fargs[1:]:
                 self.visit(arg)
-                if arg.eval_type.tag != Types.TINT:
+                if arg.eval_type != Builtins.Int:
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
@@ -1355,6 +1352,7 @@ class Analyzer(ast.Visitor):
                 vec_type = Vector(self.ctx_module, vec_type)
             node.eval_type = vec_type
         elif fn == BuiltinFn.ANEXA:
+            self.check_arity(len(node.fargs), fn, 2, False)
             vec_expr = node.fargs[0]
             value = node.fargs[1]
             self.check_vec_op(fn, node)
@@ -1369,6 +1367,7 @@ class Analyzer(ast.Visitor):
             value.prom_type = val_t.promote_to(el_type)
             node.eval_type = cast(Type, self.global_scope.resolve("vazio"))
         elif fn == BuiltinFn.REMOVA:
+            self.check_arity(len(node.fargs), fn, 2, False)
             vec_expr = node.fargs[0]
             index = node.fargs[1]
             self.check_vec_op(fn, node)
-- 
2.43.0


From 3374d3d05f52c78a04247eddff8daef45d3b4463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 53/75] fix: one escape sequence of a string literal does not
 take what follows it

---
 amanda/compiler/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 5999250..1803e94 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -166,10 +166,11 @@ class Lexer:
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
                 # the char combination as is
-                is_ctl_seq = False
-                is_ctl_seq |= self.escape_seq("n", result, "\n")
-                is_ctl_seq |= self.escape_seq("'", result, "'")
-                is_ctl_seq |= self.escape_seq('"', result, '"')
+                is_ctl_seq = (
+                    self.escape_seq("n", result, "\n")
+                    or self.escape_seq("'", result, "'")
+                    or self.escape_seq('"', result, '"')
+                )
                 if not is_ctl_seq:
                     result.write("\\")
                     self.advance()
-- 
2.43.0


From 85c64113b67b29fcae8dfd087f7ec317af2b133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 54/75] fix: a line of the input that ends in CR LF is read
 without its end

---
 amanda/vm/src/modules/builtins/embutidos.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index a5efaf1..9f01f1b 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -38,6 +38,9 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     //Remove newline at the end. The last line might not have it
     if input.ends_with('\n') {
         input.pop();
+        if input.ends_with('\r') {
+            input.pop();
+        }
     }
 
     Ok(AmaValue::Str(Cow::Owned(input)))
-- 
2.43.0


From 20db395d7e4fa95e2157a1b9add3abcb1d061b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 55/75] fix: the debug listing can have any character whatever
 the locale

---
 amanda/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index d03f095..dd9dafb 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -19,7 +19,7 @@ MAX_RECURSION = 50_000
 
 
 def write_file(name, code):
-    with open(name, "w") as output:
+    with open(name, "w", encoding="utf-8") as output:
         output.write(code)
 
 
-- 
2.43.0


From 5743f7b29555f9b1b1239695b8af4d527d86f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 56/75] fix: programs in files with any name can be run

---
 amanda/compiler/codegen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 79967df..0304df6 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -280,7 +280,11 @@ class ByteGen:
             if entry[-1] != 0:
                 src_map.extend(entry)
         module = {
-            "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
+            # Names of files can have bytes that are not valid UTF-8
+            "name": path.split(self.ctx_module.fpath)[1]
+            .replace(".ama", "")
+            .encode(errors="replace")
+            .decode(),
             "builtin": 1 if self.ctx_module.builtin else 0,
             "entry_locals": len(self.func_locals),
             "constants": list(self.const_table.keys()),
-- 
2.43.0


From 089d0d91ce019565ed392b9eaa02581f428cf4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 57/75] fix: a backslash followed by n in the source is not a
 line end

---
 amanda/compiler/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/tokens.py b/amanda/compiler/tokens.py
index 849cdf6..aa88f47 100644
--- a/amanda/compiler/tokens.py
+++ b/amanda/compiler/tokens.py
@@ -108,6 +108,8 @@ def build_tokens_dict() -> Dict[str, TokenType]:
     return {
         token_type.value.lower(): token_type
         for token_type in tt_list[start_index : end_index + 1]
+        # the value of NEWLINE describes it, it isn't how it's written
+        if token_type is not TokenType.NEWLINE
     }
 
 
-- 
2.43.0


From e2e5f9e26aea8bddb5a7d3610cd97142b951eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 58/75] fix: messages about programs with braces, and about
 types without members, are given

---
 amanda/compiler/check/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 67f2eed..9b23481 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -151,13 +151,14 @@ class Analyzer(ast.Visitor):
         )
 
     def error(self, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # The text of the program can have braces
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, self.ctx_node.token.line
         )
 
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, loc_tok.line
         )
@@ -938,7 +939,9 @@ class Analyzer(ast.Visitor):
             not target.eval_type.supports_fields()
             and not target.eval_type.supports_methods()
         ):
-            self.error("O Tipo '{ty_sym.name}' nenhum atributo ou método")
+            self.error(
+                f"O tipo '{target.eval_type}' não possui nenhum atributo ou método"
+            )
         ty_sym = target.eval_type  # type: ignore
         field = node.member.lexeme
         field_sym = cast(Typed, ty_sym.get_property(field))
-- 
2.43.0


From 59071c389728c29a879c10c37ab82f08afe86fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 59/75] fix: a type's name used as a module's in a type is
 reported

---
 amanda/compiler/check/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 9b23481..804d6f4 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -207,7 +207,8 @@ class Analyzer(ast.Visitor):
 
     def get_mod_or_err(self, scope: symbols.Scope, mod_id: str) -> ModuleTy:
         mod = scope.resolve_typed(mod_id)
-        if not mod or not isinstance(mod.type, ModuleTy):
+        # Types are found by their names too
+        if not isinstance(mod, Typed) or not isinstance(mod.type, ModuleTy):
             self.error(
                 f"Especificação de tipo inválida. O identificador '{mod_id}' não foi reconhecido como um módulo"
             )
-- 
2.43.0


From 2a8676eb6ffeb16b11133c3a5d755a7a5c5d7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 60/75] fix: type arguments of a union are reported as not
 supported

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 804d6f4..7bfc751 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -240,6 +240,10 @@ class Analyzer(ast.Visitor):
                 )
             ):
                 return reg
+            if isinstance(type_symbol, Uniao):
+                self.error(
+                    f"A união '{type_symbol}' não pode receber argumentos de tipo. As uniões genéricas ainda não são suportadas"
+                )
             return reg.bind(**generic_args)
         return cast(Type, type_symbol)
 
-- 
2.43.0


From f18cfc1144e744880fb358e66f84b80f45baf435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 61/75] fix: methods of vectors and of type parameters are
 reported

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7bfc751..23828b8 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -666,6 +666,10 @@ class Analyzer(ast.Visitor):
 
         # Checking target type
         target_ty = self.get_type(node.target_ty)
+        if isinstance(target_ty, (Vector, TypeVar)):
+            self.error(
+                f"Não pode declarar métodos para o tipo '{target_ty}'"
+            )
         method_name = node.name.lexeme
         method_id = target_ty.full_field_path(method_name)
         method_desc = f"O método '{method_name}' do tipo '{target_ty}'"
-- 
2.43.0


From 83860bb3672b18db750a657833a008d63f89bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 62/75] fix: native and builtin functions of other modules are
 reported

---
 amanda/compiler/check/core.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 23828b8..b7f8bdc 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -328,6 +328,21 @@ class Analyzer(ast.Visitor):
             )
         self.ctx_module.builtin = True
 
+    def validate_builtin_item(self, node: ast.FunctionDecl):
+        """Only native modules have functions without a body of their own"""
+        if self.ctx_module.builtin:
+            return
+        if node.is_native:
+            self.error(
+                "Apenas módulos nativos podem conter funções nativas"
+            )
+        for annotation in node.annotations:
+            if annotation.name == "embutido":
+                self.error_with_loc(
+                    annotation.location_tok,
+                    "Anotação inválida. Apenas módulos nativos podem conter a anotação 'embutido'",
+                )
+
     def visit_module(self, node: ast.Module) -> tuple[Module, dict]:
         self.validate_builtin_module(node.annotations)
         # Since each function has it's own local scope,
@@ -618,6 +633,7 @@ class Analyzer(ast.Visitor):
             f"As funções só podem ser declaradas no escopo global",
             self.ID_IN_USE,
         )
+        self.validate_builtin_item(node)
         self.validate_num_params(node)
 
         function_type = self.get_type(node.func_type)
@@ -688,6 +704,7 @@ class Analyzer(ast.Visitor):
             f"Métodos só podem ser declarados no escopo global",
             f"{method_desc} já foi declarado anteriormente",
         )
+        self.validate_builtin_item(node)
         # Checking return type
         return_ty = self.get_type(node.return_ty)
         symbol = symbols.MethodSym(
-- 
2.43.0


From ed7dfa9e5e2d86d0157cb247e9189dfdc77f9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 63/75] fix: what is in an f-string is on the line of the
 f-string

---
 amanda/compiler/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 1803e94..f878531 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -25,6 +25,8 @@ class Lexer:
         self.current_token = None
         self.current_char: str = None  # type: ignore
         self.src = src  # A file object
+        # How many lines a line break in the source goes forward
+        self.line_step = 1
 
     def set_src(self, src):
         self.src = src
@@ -57,7 +59,7 @@ class Lexer:
     def newline(self):
         pos = self.pos
         line = self.line
-        self.line += 1
+        self.line += self.line_step
         self.pos = 1
         self.advance()
         return Token(TT.NEWLINE, "\\n", line, pos)
@@ -180,7 +182,7 @@ class Lexer:
                 self.line = start_line
                 self.error(self.INVALID_STRING)
             if self.current_char == "\n":
-                self.line += 1
+                self.line += self.line_step
             result.write(self.current_char)
             self.advance()
         self.advance()
@@ -1203,6 +1205,7 @@ class Parser:
         self.lexer = Lexer(self.filename, expr)
         # The expression is on the same line as the f-string
         self.lexer.line = token.line
+        self.lexer.line_step = 0
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
-- 
2.43.0


From 97664e073c36e3ad764fc987b0445a93607f8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 64/75] fix: a record's field without a type is reported

---
 amanda/compiler/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index f878531..56f966f 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -668,6 +668,10 @@ class Parser:
             elif self.match(TT.COMMA):
                 new_fields = self.multi_decl(name)
                 fields += new_fields
+            else:
+                self.error(
+                    f"O tipo do campo '{name.lexeme}' do registo deve ser especificado"
+                )
             self.end_stmt()
         return fields
 
-- 
2.43.0


From 1e373c79d705b67d56934ff91d491e694d2e3596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 65/75] fix: the initial value of a record's field, which is
 never used, is reported

---
 amanda/compiler/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 56f966f..7bf36a4 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -664,6 +664,11 @@ class Parser:
             name = self.consume(TT.IDENTIFIER)
             if self.match(TT.COLON):
                 field = self.simple_decl(name)
+                if field.assign:
+                    self.error(
+                        f"O campo '{name.lexeme}' do registo não pode ter um valor inicial",
+                        name.line,
+                    )
                 fields.append(field)
             elif self.match(TT.COMMA):
                 new_fields = self.multi_decl(name)
-- 
2.43.0


From 6c5e24332ae4c8420796afedd98f92dcf53faa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 66/75] fix: a method, or a member of a module, that isn't
 called isn't a value anywhere

---
 amanda/compiler/check/core.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index b7f8bdc..068d344 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -979,17 +979,11 @@ class Analyzer(ast.Visitor):
         # Check if valid use of get
         # References to methods can only be used in the context of
         # a call expression
-        in_eval_ctx = (
-            node.child_of(ast.Expr)
-            or node.child_of(ast.Set)
-            or node.child_of(ast.Assign)
-            or node.child_of(ast.Statement)
+        is_callee = (
+            isinstance(node.parent, ast.Call) and node.parent.callee is node
         )
-        if (
-            in_eval_ctx
-            and not node.child_of(ast.Call)
-            and not field_sym.can_evaluate()
-        ):
+        if not is_callee and not field_sym.can_evaluate():
+            self.ctx_node = node
             self.error(self.INVALID_REF, name=field_sym.name)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
-- 
2.43.0


From d31c3e0819449c8060ea0f2f1e40fc8742c3beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 67/75] fix: a module isn't a value

---
 amanda/compiler/check/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 068d344..3ee4861 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -891,6 +891,16 @@ class Analyzer(ast.Visitor):
             element.prom_type = element_type.promote_to(list_type)
 
     # TODO: Rename this to 'name' or 'identifier'
+    def validate_module_ref(
+        self, node: ast.Variable | ast.Get, ty: Type, name: str
+    ):
+        """A module isn't a value, it's only used to access its members"""
+        if ty.is_module() and not (
+            isinstance(node.parent, ast.Get) and node.parent.target is node
+        ):
+            self.ctx_node = node
+            self.error(self.INVALID_REF, name=name)
+
     def visit_variable(self, node: ast.Variable):
         name = node.token.lexeme
         sym = cast(
@@ -902,6 +912,7 @@ class Analyzer(ast.Visitor):
         elif not sym.can_evaluate():
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
+        self.validate_module_ref(node, sym.type, name)
         node.eval_type = sym.type
         node.var_symbol = sym
         assert node.var_symbol
@@ -988,6 +999,7 @@ class Analyzer(ast.Visitor):
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
         )
+        self.validate_module_ref(node, node.eval_type, field)
         return field_sym
 
     def visit_set(self, node):
-- 
2.43.0


From 78680e1ef7931c151fc4c515f3cadfa94272ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 68/75] fix: a method of an optional belongs only to that type
 of optional

---
 amanda/compiler/types/core.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index f51f3db..30d44e5 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -342,6 +342,8 @@ class Registo(Type):
         self.name = name
         self.fields = fields
         self.methods: dict[str, MethodSym] = {}
+        # Methods of the types constructed from this one
+        self.bound_methods: list[MethodSym] = []
         self.ty_params: set[TypeVar] = ty_params if ty_params else set()
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
@@ -477,6 +479,8 @@ class Uniao(Type):
         self.name = name
         self.variants = variants
         self.methods: dict[str, MethodSym] = {}
+        # Methods of the types constructed from this one
+        self.bound_methods: list[MethodSym] = []
         self.ty_params: set[TypeVar] = ty_params if ty_params else set()
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
@@ -618,7 +622,13 @@ class ConstructedTy(Type):
         return self.generic_ty.name == str(Types.TOpcao)
 
     def define_method(self, method: Symbol):
-        self.generic_ty.define_method(method)
+        # Only values of this type have the method
+        cast(Registo, self.generic_ty).bound_methods.append(
+            cast("MethodSym", method)
+        )
+
+    def full_field_path(self, field: str) -> str:
+        return str(self) + "::" + field
 
     def cast_from(self, other: Type) -> bool:
         # Only Constructed generic we know of is "Opcao". Ignore the rest
@@ -657,6 +667,9 @@ class ConstructedTy(Type):
         return False
 
     def get_property(self, prop) -> Symbol | None:
+        for method in cast(Registo, self.generic_ty).bound_methods:
+            if method.name == prop and method.target_ty == self:
+                return method
         prop = self.generic_ty.get_property(prop)
         return (
             prop if not prop else cast(Typed, prop).bind(**self.bound_ty_args)
-- 
2.43.0


From 3efd25c8b449a913613e6eb48036514878cbf385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 69/75] fix: showing the result of a call that produces no
 value is reported

---
 amanda/compiler/check/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 3ee4861..c1fe041 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1136,6 +1136,9 @@ class Analyzer(ast.Visitor):
 
     def visit_mostra(self, node):
         sym = self.visit(node.exp)
+        if node.exp.eval_type == Builtins.Vazio:
+            self.ctx_node = node
+            self.error("Não pode mostrar uma expressão que não produz um valor")
 
     def visit_loopctlstmt(self, node):
         token = node.token
-- 
2.43.0


From bc5b1cb8c4257a7e5db5c7fa25fe17305d8ef215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 70/75] fix: a variant given to a call must have its own
 arguments

---
 amanda/compiler/check/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c1fe041..c0790c8 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -941,10 +941,11 @@ class Analyzer(ast.Visitor):
                         f"O item '{current_sym.name}' não possui sub-itens"
                     )
 
-        # If variant not referenced in the context of a call
+        # If the variant isn't what a call invokes
         # and it has params, error out
+        is_callee = node.child_of(ast.Call) and node.parent.callee is node
         if (
-            not node.child_of(ast.Call)
+            not is_callee
             and isinstance(current_sym, Variant)
             and len(current_sym.params) > 0
             and not node.child_of(ast.ADTPattern)
-- 
2.43.0


From c69b8c55cb4b82ab36921d10d5f7245bec59cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 71/75] fix: a type declared in a block doesn't replace the
 global with the same name

---
 amanda/compiler/check/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c0790c8..b4fe5af 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -783,6 +783,8 @@ class Analyzer(ast.Visitor):
             cast(dict[str, symbols.VariableSymbol], reg_scope.symbols),
             ty_params=generic_params,
         )
+        # A type declared inside a block is stored like the block's variables
+        registo.is_global = self.scope_depth == 0
         self.define_symbol(registo, self.scope_depth, self.ctx_scope)
         self.ctx_reg = registo
         self.enter_scope(reg_scope)
@@ -794,7 +796,6 @@ class Analyzer(ast.Visitor):
             symbol.is_property = True
 
         self.leave_scope()
-        self.define_symbol(registo, self.scope_depth, self.ctx_scope)
         self.leave_ty_ctx()
         self.ctx_reg = None
 
-- 
2.43.0


From 83d5c861a933e8c49b0eba0302b0644e2adedc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 72/75] fix: types with the same name declared in different
 blocks are different types

---
 amanda/compiler/types/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 30d44e5..d64b1af 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -409,11 +409,12 @@ class Registo(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        # Modules can declare types with the same name
+        # Modules and blocks can declare types with the same name
         return (
             isinstance(other, Registo)
             and self.name == other.name
             and self.module.fpath == other.module.fpath
+            and self.out_id == other.out_id
         )
 
     def __str__(self) -> str:
@@ -541,11 +542,12 @@ class Uniao(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        # Modules can declare types with the same name
+        # Modules and blocks can declare types with the same name
         return (
             isinstance(other, Uniao)
             and self.name == other.name
             and self.module.fpath == other.module.fpath
+            and self.out_id == other.out_id
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From f118674a6c6336048ca81864682c41a910f3b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 73/75] fix: a call refers to what its name meant where the
 call is

---
 amanda/compiler/check/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index b4fe5af..30ba769 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1309,6 +1309,8 @@ class Analyzer(ast.Visitor):
                     self.error(
                         f"o identificador '{name}' não foi definido neste escopo"
                     )
+                # The name can be declared again later in the same scope
+                callee.var_symbol = sym
             case ast.Get():
                 sym = self.visit(callee)
             case ast.Path():
@@ -1383,6 +1385,7 @@ class Analyzer(ast.Visitor):
             if not isinstance(type_node, ast.Variable):
                 self.error(f"O tipo de um vector deve ser um tipo simples")
             el_type = self.get_type(type_node)  # Attempt to get type
+            type_node.var_symbol = el_type
             # Is arg 1 a vector type?
             if not el_type.zero_initialized:
                 self.error(f"O tipo de um vector deve ser um tipo simples")
-- 
2.43.0


From 6659f93de85dc05a92fe8f04ba060481f511df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 74/75] fix: an int literal is an int whatever a block's names
 are

A variable, parameter or record of a block named 'int' became the type of
the int literals and of the 'para' counters in its scope, and compilation
ended in a traceback.
---
 amanda/compiler/check/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 30ba769..b2e5740 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -863,9 +863,9 @@ class Analyzer(ast.Visitor):
     # TODO: Rename this to literal
     def visit_constant(self, node: ast.Constant):
         constant = node.token.token
-        scope = self.ctx_scope
         if constant == TT.INTEGER:
-            node.eval_type = scope.resolve("int")
+            # Other symbols can be named 'int' inside of blocks
+            node.eval_type = Builtins.Int
             self.validate_int_literal(node.token)
         elif constant == TT.REAL:
             node.eval_type = Builtins.Real
@@ -1264,7 +1264,7 @@ class Analyzer(ast.Visitor):
         # Define control variable for loop
         name = node.expression.name.lexeme
         sym = symbols.VariableSymbol(
-            name, self.ctx_scope.resolve("int"), self.ctx_module
+            name, Builtins.Int, self.ctx_module
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
-- 
2.43.0


From 91c60d17e5c23e524e1cb130532962cfab1f0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 75/75] fix: patterns for the same text with different quotes
 are the same pattern

A row with "a" was never tried after a row with 'a' had matched the text.
---
 amanda/compiler/check/exhaustiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 8fc26e1..6463a14 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -342,7 +342,8 @@ class IgualaCompiler:
                         cons = IntCons(num)
                     case ast.StrPattern(val):
                         val = val.lexeme
-                        key = val
+                        # The same text can be between different quotes
+                        key = val[1:-1]
                         cons = StrCons(val)
                     case _:
                         raise NotImplementedError("Invalid pattern")
-- 
2.43.0

