From a98acab199d7d0d10306e419e903aeea3f346ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 01/78] fix: generate code for the unary plus operator

---
 amanda/compiler/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11a55e3..ef927e8 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -586,6 +586,9 @@ class ByteGen:
             self.append_op(OpCode.OP_INVERT)
         elif operator == TT.NAO:
             self.append_op(OpCode.OP_NOT)
+        elif operator == TT.PLUS:
+            # The unary plus does not change its operand
+            pass
         else:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
-- 
2.43.0


From e0a9143ad91d8cc520b2b0f38ec42945300ec713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 02/78] fix: keep the delimiters of the literal parts of an
 f-string

---
 amanda/compiler/parse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c1dff76..d9af104 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1199,8 +1199,16 @@ class Parser:
         char = format_str.read(1)
         parts = []
 
+        # String constants always keep their delimiters, without them the vm
+        # would attempt to read the text as a number
+        quote = token.lexeme[0]
         tokenify_str = lambda lexeme: ast.Constant(
-            Token(TT.STRING, lexeme=lexeme, line=token.line, col=token.col)
+            Token(
+                TT.STRING,
+                lexeme=f"{quote}{lexeme}{quote}",
+                line=token.line,
+                col=token.col,
+            )
         )
         # TODO: Reuse this buffer
         current_str = StringIO()
@@ -1235,7 +1243,7 @@ class Parser:
         if buff_str:
             parts.append(tokenify_str(buff_str))
         if not has_expr:
-            return parts[0]
+            return tokenify_str(buff_str)
         return ast.FmtStr(token, parts)
 
     def primary(self):
-- 
2.43.0


From 393c3b33f2dad0431fb6565c26e709946137997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 03/78] fix: reject trailing symbols in f-string expressions

---
 amanda/compiler/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index d9af104..c3d40e0 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1182,6 +1182,11 @@ class Parser:
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
+            self.skip_newlines()
+            if not self.match(Lexer.EOF):
+                self.error(
+                    f"String de formatação inválida. Símbolo inesperado depois da expressão: '{self.lookahead.lexeme}'"
+                )
         except AmandaError as e:
             raise AmandaError.syntax_error(
                 self.filename, e.message, token.line, token.col
-- 
2.43.0


From 1ba1b7fe80285f716ea4066052c51694375fdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 04/78] fix: run the fallback of an 'iguala', store its target
 once and keep scopes, slots and stack consistent

---
 amanda/compiler/check/exhaustiveness.py | 40 ++++++++++++-------------
 amanda/compiler/check/iguala.py         |  1 -
 amanda/compiler/codegen.py              | 33 +++++++++++++++-----
 3 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 4e907af..20e4b7c 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -53,6 +53,15 @@ class Row:
     guard: int | None
     body: Body
 
+    # A row may end up in several branches of the decision tree, and each
+    # branch must have its own columns and bindings.
+    def clone(self) -> Row:
+        return Row(
+            columns=list(self.columns),
+            guard=self.guard,
+            body=Body(list(self.body.bindings), self.body.value),
+        )
+
     def remove_column(self, variable: VariableSymbol) -> Column | None:
         try:
             idx = list(map(lambda c: c.variable, self.columns)).index(variable)
@@ -210,7 +219,7 @@ class Match:
                             terms.append(
                                 Term(var, "true" if val == 1 else "false", [])
                             )
-                        case IntCons():
+                        case IntCons() | StrCons():
                             terms.append(Term(var, "_", []))
                         case VariantCons(name=name):
                             args = case.arguments
@@ -224,22 +233,6 @@ class Match:
                 if node := fallback:
                     self.add_missing_patterns(node, terms, missing)
 
-    def declare_block_symbols(self):
-        self._declare_block_symbols(self.tree)
-
-    def _declare_block_symbols(self, tree: Decision):
-        match tree:
-            case DSuccess(body):
-                for name, var in body.bindings:
-                    unwrap(body.value.symbols).define(
-                        name, VariableSymbol(name, var.type, var.module)
-                    )
-            case DSwitch(cases=cases):
-                for case in cases:
-                    self._declare_block_symbols(case.body)
-            case _:
-                pass
-
 
 @dataclass
 class IgualaCompiler:
@@ -289,7 +282,11 @@ class IgualaCompiler:
 
         if rows and not rows[0].columns:
             row = rows.pop(0)
-            self.diagnostics.reachable.append(row.body.value)
+            # The same block can be reached through more than one branch
+            if not any(
+                block is row.body.value for block in self.diagnostics.reachable
+            ):
+                self.diagnostics.reachable.append(row.body.value)
             guard = row.guard
             return (
                 DGuard(guard, row.body, self._compile_rows(rows))
@@ -354,7 +351,8 @@ class IgualaCompiler:
                     case _:
                         raise NotImplementedError("Invalid pattern")
 
-                if index := tested.get(key):
+                index = tested.get(key)
+                if index is not None:
                     raw_cases[index][2].append(row)
                     continue
 
@@ -364,7 +362,7 @@ class IgualaCompiler:
                 fallback_rows.append(row)
 
         for _, _, rows in raw_cases:
-            rows.extend(fallback_rows)
+            rows.extend(row.clone() for row in fallback_rows)
 
         cases = list(
             map(
@@ -420,7 +418,7 @@ class IgualaCompiler:
                     cases[idx][2].append(Row(cols, row.guard, row.body))
             else:
                 for _, _, rows in cases:
-                    rows.append(row)
+                    rows.append(row.clone())
 
         return list(
             map(
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 2826a1f..5f533d9 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -61,7 +61,6 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
     # Validate reachable blocks
-    tree.declare_block_symbols()
     first_block = tree.diagnostics.reachable[0]
     checker.visit(first_block)
     iguala.eval_type = first_block.eval_type
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index ef927e8..f0a75c7 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -558,9 +558,11 @@ class ByteGen:
             self.append_op(OpCode.SET_LOCAL, self.func_locals[local])
 
     def declare_local(self, symbol: Symbol) -> int:
-        idx = len(self.func_locals)
-        self.func_locals[symbol.out_id] = idx
-        return idx
+        # A local that already has a slot must keep it, otherwise the new slot
+        # would be shared with the next local
+        return self.func_locals.setdefault(
+            symbol.out_id, len(self.func_locals)
+        )
 
     # TODO: Test whether chained assign still with
     # mixture of normal assigns and index set (Potential bug)
@@ -751,7 +753,16 @@ class ByteGen:
         self.exit_block()
 
     def gen_iguala(self, node: ast.Iguala):
+        # The blocks of the arms are nested inside the scope of the 'iguala',
+        # so the current scope must be restored after generating them
+        scope = self.scope_symtab
+        # The target is only evaluated once. If it is not a reference to a
+        # variable, its value has to be stored before it can be tested
+        if not isinstance(node.target, (ast.Variable, ast.Alvo)):
+            self.gen(node.target)
+            self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
+        self.scope_symtab = scope
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
         match decision:
@@ -762,8 +773,8 @@ class ByteGen:
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
                 self.gen(body.value)
-            case DSwitch(variable=var, cases=cases):
-                self.gen_iguala_cases(node, var, cases)
+            case DSwitch(variable=var, cases=cases, fallback=fallback):
+                self.gen_iguala_cases(node, var, cases, fallback)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -785,12 +796,12 @@ class ByteGen:
                 unreachable("Unknown constructor")
 
     def gen_iguala_case_bindings(self, var: symbols.VariableSymbol, case: Case):
-        self.load_variable(var)
         match case.constructor:
             case VariantCons(name=name):
                 cargs = case.arguments
                 if not cargs:
                     return
+                self.load_variable(var)
                 for arg in cargs:
                     # Declare local and push local index into stack
                     idx = self.declare_local(arg)
@@ -800,7 +811,11 @@ class ByteGen:
                 pass
 
     def gen_iguala_cases(
-        self, node: ast.Iguala, var: symbols.VariableSymbol, cases: list[Case]
+        self,
+        node: ast.Iguala,
+        var: symbols.VariableSymbol,
+        cases: list[Case],
+        fallback: Decision | None,
     ):
         after_if = self.new_label()
         after_block = self.new_label()
@@ -825,6 +840,10 @@ class ByteGen:
             self.append_op(OpCode.JUMP, after_if)
             self.patch_label_loc(after_elsif)
 
+        # None of the cases matched
+        if fallback:
+            self.gen_iguala_from_ir(node, fallback)
+
         self.patch_label_loc(after_if)
 
     def gen_functiondecl(self, node: ast.FunctionDecl):
-- 
2.43.0


From d3cd2e1f1fb90ccfd5a8e09bf73abb79fb2a40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 05/78] fix: give each local of a function its own identifier

---
 amanda/compiler/check/core.py   | 2 +-
 amanda/compiler/symbols/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0932214..fcbade3 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -173,7 +173,7 @@ class Analyzer(ast.Visitor):
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}{scope.count()}_"
+            symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 42c46c1..b654512 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -165,7 +165,7 @@ class Scope:
         return len(self.symbols)
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(f"_r{self.count()}_", type, module)
+        symbol = VariableSymbol(f"_m{self.count()}_", type, module)
         self.define(symbol.name, symbol)
         return symbol
 
-- 
2.43.0


From 6e0ff02586f10261a4caed78fcb43be98ddfb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 06/78] fix: check the patterns nested inside of a variant
 pattern

---
 amanda/compiler/check/iguala.py | 55 +++++++++++++++++++--------------
 amanda/compiler/error.py        |  2 ++
 amanda/compiler/parse.py        |  2 +-
 3 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 5f533d9..18bf5bf 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -77,9 +77,13 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 
 
 def check_binding_pattern(
-    checker: Checker, arm: ast.IgualaArm, target_ty: Type, var: ast.Variable
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.BindingPattern,
+    target_ty: Type,
+    var: ast.Variable,
 ):
-    arm.pattern.eval_type = target_ty
+    pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
     if var_name in scope.symbols:
@@ -93,8 +97,13 @@ def check_binding_pattern(
     )
 
 
-def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
-    match arm.pattern:
+def check_pattern(
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.Pattern,
+    target_ty: Type,
+):
+    match pattern:
         case ast.ADTPattern(adt, args):
             checker.visit(adt)
             sym = tycheck.unwrap(
@@ -107,39 +116,39 @@ def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
                             Errors.VARIANT_TAKES_NO_ARGS,
                             variant=sym.qualified_name(),
                         )
-                    for pattern, ty in zip(args, params):
-                        match pattern:
-                            case ast.BindingPattern(var=var):
-                                check_binding_pattern(checker, arm, ty, var)
-                            case ast.IntPattern():
-                                pattern.eval_type = Builtins.Int
-                            case ast.StrPattern():
-                                pattern.eval_type = Builtins.Texto
-                            case _:
-                                tycheck.unreachable("unknown subpattern")
+                    if len(args) > len(params):
+                        checker.error(
+                            Errors.VARIANT_TAKES_LESS_ARGS,
+                            variant=sym.qualified_name(),
+                            expected=len(params),
+                            received=len(args),
+                        )
                 case _:
-                    tycheck.unreachable("Unhandled ADT sym")
-            arm.pattern.eval_type = sym.uniao
-            arm.pattern.cons = VariantCons(
+                    checker.error(Errors.INVALID_PATTERN)
+            pattern.eval_type = sym.uniao
+            pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
             )
         case ast.IntPattern():
-            arm.pattern.eval_type = Builtins.Int
+            pattern.eval_type = Builtins.Int
         case ast.StrPattern():
-            arm.pattern.eval_type = Builtins.Texto
+            pattern.eval_type = Builtins.Texto
         case ast.BindingPattern(var=var):
-            check_binding_pattern(checker, arm, target_ty, var)
+            check_binding_pattern(checker, arm, pattern, target_ty, var)
         case _:
             tycheck.unreachable("Unhandled pattern type")
-    if arm.pattern.eval_type != target_ty:
+    if pattern.eval_type != target_ty:
         checker.error(
             Errors.INVALID_PATTERN_TYPE,
             expected=target_ty,
-            received=arm.pattern.eval_type,
+            received=pattern.eval_type,
         )
+    if isinstance(pattern, ast.ADTPattern):
+        for arg, ty in zip(pattern.args, sym.params):
+            check_pattern(checker, arm, arg, ty)
 
 
 def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
     # 1. Check pattern
     arm.body.symbols = symbols.Scope(checker.ctx_scope)
-    check_pattern(checker, arm, iguala.target.eval_type)
+    check_pattern(checker, arm, arm.pattern, iguala.target.eval_type)
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 0f466ff..320981d 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -10,6 +10,8 @@ class Errors:
     VARIANT_ALREADY_DECLARED = "A variante '{variant}' já foi declarada anteriormente na união '{uniao}'"
     VOID_FN_MATCH_TARGET = "Funções sem retorno não podem ser usadas como o alvo da instrução 'iguala'"
     VARIANT_TAKES_NO_ARGS = "Padrão inválido. A variante '{variant}' não espera receber nenhum argumento"
+    VARIANT_TAKES_LESS_ARGS = "Padrão inválido. A variante '{variant}' só espera receber {expected} argumento(s) mas recebeu {received}"
+    INVALID_PATTERN = "Padrão inválido"
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
     )
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c3d40e0..683351c 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -843,7 +843,7 @@ class Parser:
                     case TT.STRING:
                         return ast.StrPattern(token)
                     case _:
-                        unreachable("Unhandled constant pattern")
+                        self.error("Padrão inválido")
             case _:
                 self.error("Padrão inválido")
 
-- 
2.43.0


From 50784a51685a0add1997ca7ef0fef9a1770dc898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 07/78] fix: compound and chained assignments to fields and
 vector elements

---
 amanda/compiler/codegen.py | 85 +++++++++++++++++++++++++++++++-------
 amanda/compiler/parse.py   |  5 ++-
 2 files changed, 73 insertions(+), 17 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index f0a75c7..177bff3 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -564,16 +564,42 @@ class ByteGen:
             symbol.out_id, len(self.func_locals)
         )
 
-    # TODO: Test whether chained assign still with
-    # mixture of normal assigns and index set (Potential bug)
-    def gen_assign(self, node):
-        expr = node.right
+    def store_temp(self, expr: ast.Expr) -> ast.Variable:
+        """Evaluates an expression, stores its value in a new local and
+        returns a reference to that local."""
         self.gen(expr)
-        # Deal with consecutive assignments
-        if isinstance(expr, ast.Assign):
-            var_sym = expr.left.var_symbol
-            name = expr.left.token.lexeme
-            self.load_variable(var_sym)
+        return self.store_tos(expr)
+
+    def store_tos(self, expr: ast.Expr) -> ast.Variable:
+        symbol = symbols.VariableSymbol(
+            f"_t{len(self.func_locals)}_", expr.eval_type, self.ctx_module
+        )
+        self.set_variable(symbol)
+        var = ast.Variable(expr.token)
+        var.var_symbol = symbol
+        return var
+
+    def gen_assigned_value(self, expr: ast.Expr):
+        """Generates the value of an assignment. When it is another assignment
+        (a = b = c), leaves the value that was assigned on the stack"""
+        match expr:
+            case ast.Assign():
+                self.gen(expr)
+                self.load_variable(expr.left.var_symbol)
+            case ast.IndexSet():
+                self.gen(self.gen_index_assign(expr, keep_value=True))
+            case ast.Set():
+                self.gen(self.gen_field_assign(expr, keep_value=True))
+            case _:
+                self.gen(expr)
+
+    def is_compound(self, target: ast.Expr, value: ast.Expr) -> bool:
+        # The target of a compound assignment (+=, -=, *=, /=) is also the
+        # left operand of the value
+        return isinstance(value, ast.BinOp) and value.left is target
+
+    def gen_assign(self, node):
+        self.gen_assigned_value(node.right)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -950,9 +976,24 @@ class ByteGen:
             self.append_op(OpCode.OP_INDEX_GET)
 
     def gen_indexset(self, node):
-        self.gen_indexget(node.index, gen_get=False)
-        self.gen(node.value)
+        self.gen_index_assign(node)
+
+    def gen_index_assign(self, node: ast.IndexSet, keep_value: bool = False):
+        index_get = node.index
+        target, index = index_get.target, index_get.index
+        # The target and the index can only be evaluated once
+        if self.is_compound(index_get, node.value):
+            index_get.target = self.store_temp(target)
+            index_get.index = self.store_temp(index)
+        self.gen_indexget(index_get, gen_get=False)
+        self.gen_assigned_value(node.value)
+        index_get.target, index_get.index = target, index
+        value = None
+        if keep_value:
+            value = self.store_tos(node.value)
+            self.gen(value)
         self.append_op(OpCode.OP_INDEX_SET)
+        return value
 
     def gen_fmtstr(self, node):
         for part in node.parts:
@@ -975,15 +1016,27 @@ class ByteGen:
     def gen_get(self, node: ast.Get):
         self.gen(node.target)
         self.load_name(node.member.lexeme)
-        assert node.parent, "Parent must not be none"
-        if node.child_of(ast.Set):
-            return
         self.append_op(OpCode.GET_PROP)
 
     def gen_set(self, node: ast.Set):
-        self.gen(node.target)
-        self.gen(node.expr)
+        self.gen_field_assign(node)
+
+    def gen_field_assign(self, node: ast.Set, keep_value: bool = False):
+        get = node.target
+        target = get.target
+        # The target can only be evaluated once
+        if self.is_compound(get, node.expr):
+            get.target = self.store_temp(target)
+        self.gen(get.target)
+        self.load_name(get.member.lexeme)
+        self.gen_assigned_value(node.expr)
+        get.target = target
+        value = None
+        if keep_value:
+            value = self.store_tos(node.expr)
+            self.gen(value)
         self.append_op(OpCode.SET_PROP)
+        return value
 
     def gen_unwrap(self, node: ast.Unwrap):
         self.gen(node.option)
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 683351c..8c3716e 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1001,7 +1001,10 @@ class Parser:
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                expr = ast.Set(target=expr, expr=self.assignment())
+                expr = ast.Set(
+                    target=expr,
+                    expr=ast.BinOp(token, left=expr, right=self.equality()),
+                )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
-- 
2.43.0


From 498cab62efac2fb21e9abd646dd487289421cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 08/78] fix: restore the stack of the caller when a function
 returns

---
 amanda/vm/src/vm.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f29b003..6979266 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -359,9 +359,11 @@ impl<'a> AmaVM<'a> {
                                 func.bp = self.sp - (args - 1);
                                 let extra = func.locals - args as usize;
                                 self.reserve_stack_space(extra);
-                            } else if func.locals > 0 {
+                            } else {
                                 func.bp = self.sp + 1;
-                                self.reserve_stack_space(func.locals);
+                                if func.locals > 0 {
+                                    self.reserve_stack_space(func.locals);
+                                }
                             }
                             //Set return addr in caller
                             self.frames.peek_mut().ip += 1;
@@ -395,6 +397,8 @@ impl<'a> AmaVM<'a> {
                     let val = self.op_pop();
                     let frame_bp = self.frames.peek().bp;
                     self.sp = if frame_bp > -1 { frame_bp - 1 } else { self.sp };
+                    //Release the space used by the locals of the function
+                    self.values.truncate((self.sp + 1) as usize);
                     self.frames.pop().unwrap();
                     self.op_push(val);
                     let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
-- 
2.43.0


From 6443f10568a521b51f6728fb736218a8f8b002a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 09/78] fix: report the overflow of the unary minus as a
 runtime error

---
 amanda/vm/src/ama_value.rs | 4 +++-
 amanda/vm/src/vm.rs        | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index a56d77d..d6a61e4 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -15,6 +15,8 @@ use std::rc::Rc;
 
 pub type RcCell<T> = Rc<RefCell<T>>;
 
+pub const INT_OVERFLOW_ERR: &str = "Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis";
+
 macro_rules! arith_ops {
     ($res_type: ident, $left: ident, $op:tt, $op_fn: ident, $right: ident) => {
         match $res_type {
@@ -24,7 +26,7 @@ macro_rules! arith_ops {
                     if let Some(int) = result {
                         Ok(AmaValue::Int(int))
                     } else {
-                        Err("Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis")
+                        Err(INT_OVERFLOW_ERR)
                     }
                 }
             _ => unimplemented!("Operand type not supported"),
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 6979266..eb83b4d 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -247,7 +247,10 @@ impl<'a> AmaVM<'a> {
                     let op = OpCode::from(&op);
                     if let OpCode::OpInvert = op {
                         match operand {
-                            AmaValue::Int(num) => self.op_push(AmaValue::Int(-num)), 
+                            AmaValue::Int(num) => match num.checked_neg() {
+                                Some(int) => self.op_push(AmaValue::Int(int)),
+                                None => return self.panic_and_throw(ama_value::INT_OVERFLOW_ERR),
+                            },
                             AmaValue::F64(num) => self.op_push(AmaValue::F64(-num)), 
                             _ => panic!("Fatal error!"),
                         };
-- 
2.43.0


From 5dee8f469ac6e08331fa9ecd8cddc61bf97db646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 10/78] fix: integer division between reals truncates the
 quotient, not the operands

---
 amanda/vm/src/ama_value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index d6a61e4..e9b75e4 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -210,10 +210,11 @@ impl<'a> AmaValue<'a> {
                 }
             }
             OpCode::OpFloorDiv => {
-                if right.take_int() == 0 {
+                if right.take_float() == 0.0 {
                     Err("não pode dividir um número por zero")
+                } else if let Type::Real = res_type {
+                    Ok(AmaValue::F64((left.take_float() / right.take_float()).trunc()))
                 } else {
-                    let res_type = Type::Int;
                     arith_ops!(res_type, left, /, checked_div, right)
                 }
             }
-- 
2.43.0


From 02cc7de236e6bfd73054e034dea693995b9c6c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 11/78] fix: compare records, vectors and optional values
 without aborting the vm

---
 amanda/vm/src/ama_value.rs | 53 ++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index e9b75e4..21f3a2f 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -44,18 +44,6 @@ macro_rules! comp_ops {
     };
 }
 
-macro_rules! eq_ops {
-    ($res_type: ident, $left: ident, $op: tt, $right: ident) => {
-        Ok(match $res_type {
-            Type::Int => AmaValue::Bool($left.take_int() $op $right.take_int()),
-            Type::Real => AmaValue::Bool($left.take_float() $op $right.take_float()),
-            Type::Bool => AmaValue::Bool($left.take_bool() $op $right.take_bool()),
-            Type::Texto => AmaValue::Bool($left.take_str() $op $right.take_str()),
-            _ => unimplemented!("Operand type not supported"),
-        })
-    };
-}
-
 macro_rules! is_fn {
     ($fn_name: ident, $to_match: path) => {
         pub fn $fn_name(&self) -> bool {
@@ -177,7 +165,39 @@ impl<'a> AmaValue<'a> {
         Ok(())
     }
 
+    // Records and vectors are references, so they are only equal to themselves.
+    // Values of different kinds are never equal.
+    fn equals(left: &Self, right: &Self) -> bool {
+        match (left, right) {
+            (AmaValue::None, AmaValue::None) => true,
+            (AmaValue::Int(left), AmaValue::Int(right)) => left == right,
+            (AmaValue::Int(_), AmaValue::F64(_))
+            | (AmaValue::F64(_), AmaValue::Int(_))
+            | (AmaValue::F64(_), AmaValue::F64(_)) => left.take_float() == right.take_float(),
+            (AmaValue::Bool(left), AmaValue::Bool(right)) => left == right,
+            (AmaValue::Str(left), AmaValue::Str(right)) => left == right,
+            (AmaValue::Vector(left), AmaValue::Vector(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::RegObj(left), AmaValue::RegObj(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::Variant(left, left_args), AmaValue::Variant(right, right_args)) => {
+                left == right
+                    && match (left_args, right_args) {
+                        (Some(left), Some(right)) => left
+                            .iter()
+                            .zip(right.iter())
+                            .all(|(left, right)| Self::equals(left, right)),
+                        _ => true,
+                    }
+            }
+            _ => false,
+        }
+    }
+
     pub fn binop(left: &Self, op: OpCode, right: &Self) -> Result<Self, &'a str> {
+        match op {
+            OpCode::OpEq => return Ok(AmaValue::Bool(Self::equals(left, right))),
+            OpCode::OpNotEq => return Ok(AmaValue::Bool(!Self::equals(left, right))),
+            _ => (),
+        };
         let res_type = if left.is_float() || right.is_float() {
             Type::Real
         } else if left.is_int() && right.is_int() {
@@ -186,8 +206,6 @@ impl<'a> AmaValue<'a> {
             Type::Bool
         } else if left.is_str() && right.is_str() {
             Type::Texto
-        } else if left.is_none() && right.is_str() {
-            Type::Texto
         } else {
             unimplemented!("Error is not implemented")
         };
@@ -220,8 +238,7 @@ impl<'a> AmaValue<'a> {
             }
             OpCode::OpAnd => Ok(AmaValue::Bool(left.take_bool() && right.take_bool())),
             OpCode::OpOr => Ok(AmaValue::Bool(left.take_bool() || right.take_bool())),
-            OpCode::OpEq => eq_ops!(res_type, left, ==, right),
-            OpCode::OpNotEq => eq_ops!(res_type, left, !=,  right),
+
             OpCode::OpGreater => comp_ops!(res_type, left, >, right),
             OpCode::OpGreaterEq => comp_ops!(res_type, left, >=, right),
             OpCode::OpLess => comp_ops!(res_type, left, <, right),
@@ -352,9 +369,7 @@ pub fn cast<'a>(value: &AmaValue, target: Type) -> Result<AmaValue<'a>, String>
 
 impl<'a> PartialEq for AmaValue<'a> {
     fn eq(&self, other: &Self) -> bool {
-        AmaValue::binop(self, OpCode::OpEq, other)
-            .unwrap()
-            .take_bool()
+        AmaValue::equals(self, other)
     }
 }
 
-- 
2.43.0


From 9e49ca8f1cb3703c84122a6ab3d7f94a28d0fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 12/78] fix: do not share the inner vectors created by 'vec'

---
 amanda/vm/src/modules/builtins/embutidos.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 841102d..fd85b36 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -113,9 +113,12 @@ fn build_vec<'a>(
         if size == 0 {
             Vec::with_capacity(0)
         } else {
-            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-            let mut container = Vec::with_capacity(inner.len());
-            container.resize_with(size, || (AmaValue::Vector(alloc.alloc_ref(inner.clone()))));
+            //Each element must be a new vector, not a reference to a shared one
+            let mut container = Vec::with_capacity(size);
+            for _ in 0..size {
+                let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
+                container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
+            }
             container
         }
     }
-- 
2.43.0


From 72301f19402d1fae8dd8224c1678765a14febd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 13/78] fix: reading the last line of the input does not abort
 the vm

---
 amanda/vm/src/modules/builtins/embutidos.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index fd85b36..81c30cd 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -32,10 +32,10 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     //TODO: Propagate possible errors to caller
     io::stdin().read_line(&mut input).unwrap();
     //Remove newline at the end
-    debug_assert!(
-        input.remove(input.len() - 1) == 0xA as char,
-        "Removing wrong char"
-    );
+    //(the last line of the input does not have to end with one)
+    if input.ends_with('\n') {
+        input.pop();
+    }
 
     Ok(AmaValue::Str(Cow::Owned(input)))
 }
-- 
2.43.0


From 506001556ffe5296e525950713f2acef81e5ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 14/78] fix: methods with the same name on different types,
 uncalled methods and method calls across modules

---
 amanda/compiler/check/core.py |  6 +++++-
 amanda/compiler/codegen.py    | 16 +++++++++++++---
 amanda/compiler/transform.py  | 26 +++-----------------------
 3 files changed, 21 insertions(+), 27 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index fcbade3..bb7c7c9 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -520,7 +520,11 @@ class Analyzer(ast.Visitor):
         if node.of_type(ast.MethodDecl):
             symbol.is_property = True
         symbol.is_global = True
-        self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
+        if node.of_type(ast.MethodDecl):
+            # Methods are not visible by their own name, only through their type
+            self.ctx_scope.define(name, symbol)
+        else:
+            self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
         scope, params = self.define_func_scope(name, node.params)
         symbol.params = params
         return (scope, params)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 177bff3..203b736 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -475,8 +475,15 @@ class ByteGen:
         self.append_op(OpCode.LOAD_CONST, idx)
         self.gen_auto_cast(node.prom_type)
 
+    def global_name(self, symbol: Symbol) -> str:
+        """Name of a symbol in the globals of its module. Methods of different
+        types may have the same name."""
+        if isinstance(symbol, symbols.MethodSym):
+            return symbol.target_ty.full_field_path(symbol.name)
+        return symbol.name
+
     def load_variable(self, symbol: Symbol):
-        name = symbol.name
+        name = self.global_name(symbol)
         sym_module = cast(symbols.Typed, symbol).module.fpath
         typed_sym = cast(symbols.Typed, symbol)
         # Guarantee item is in the name table
@@ -875,14 +882,17 @@ class ByteGen:
     def gen_functiondecl(self, node: ast.FunctionDecl):
         func_symbol = node.symbol
 
-        name = func_symbol.name
-        name_idx = self.get_table_index(func_symbol.name, self.NAME_TABLE)
+        name = self.global_name(func_symbol)
+        name_idx = self.get_table_index(name, self.NAME_TABLE)
         func_end = self.new_label()
         self.append_op(OpCode.JUMP, func_end)
         func_start = self.new_label()
         block = node.block
         prev_func_locals = self.func_locals
         self.func_locals = {}
+        if isinstance(node, ast.MethodDecl):
+            # The target of a method is always its first param
+            self.func_locals["alvo"] = 0
         for param in func_symbol.params.values():
             local = param.out_id
             idx = len(self.func_locals)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index d034a5c..ddf6588 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -132,34 +132,15 @@ class ASTTransformer:
             return ast.Unwrap(option=callee.target, default_val=node.fargs[0])
 
         var: ast.Variable
-        if callee.of_type(ast.Get) and callee.target.eval_type.is_module():
-            # A call to a function in another module via a module alias
-            sym = cast(FunctionSymbol, node.symbol)
-            # Add func symbol to symbol table
-            # Prefix with the name of the module to avoid overwriting
-            # other methods with the same name, from different modules
-            sym.name = sym.out_id = f"{callee}::{sym.name}"
-            self.program.symbols.define(sym.name, sym)
-            """
-            call_node = ast.Call(callee=var, fargs=node.fargs)
-            call_node.symbol = sym
-            return call_node
-            """
-        elif isinstance(node.symbol, MethodSym):
+        if isinstance(node.symbol, MethodSym):
             # Common method call
             sym = cast(MethodSym, node.symbol)
             instance = cast(ast.Get, node.callee).target
-            sym.params = {
-                "alvo": VariableSymbol("alvo", sym.return_ty, self.module),
-                **sym.params,
-            }
             node.fargs.insert(0, instance)
-            if sym.is_external(self.module):
-                sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-                self.program.symbols.define(sym.name, sym)
         else:
             raise NotImplementedError("Unknown case")
         var = var_node(sym.name, node.token)
+        var.var_symbol = sym
         call_node = ast.Call(callee=var, fargs=node.fargs)
         call_node.symbol = sym
         return call_node
@@ -169,9 +150,8 @@ class ASTTransformer:
         if node.target.eval_type.is_module():
             imp_mod = node.target.eval_type
             sym = imp_mod.module.ast.symbols.resolve(node.member.lexeme)
-            sym.name = sym.out_id = f"{imp_mod.module.fpath}::{sym.name}"
             var = var_node(sym.name, node.token)
-            self.program.symbols.define(sym.name, sym)
+            var.var_symbol = sym
             return var
         else:
             return (
-- 
2.43.0


From bf11152a9f07329a542fee7d41eb4cf50f01cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 15/78] fix: initialize a module after the modules that it
 imports

---
 amanda/compiler/check/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index bb7c7c9..83cb447 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -424,6 +424,8 @@ class Analyzer(ast.Visitor):
                 )
 
         module.loaded = True
+        # A module is only initialized after the modules that it imports
+        self.imports[module.fpath] = self.imports.pop(module.fpath)
         self.ctx_module = prev_module
 
     def resolve_import(self, fpath: str) -> str | None:
-- 
2.43.0


From efb5fe0db9bc3d2c9022bdd1bca7fd4924a11bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 16/78] fix: run the entry code of an imported module, and its
 stack traces, in that module

---
 amanda/vm/src/vm.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index eb83b4d..92ab8cf 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -173,7 +173,12 @@ impl<'a> AmaVM<'a> {
         }
         module.initialize(&self.builtin_defs);
         self.ctx_module = Some(module);
-        self.init(self.ctx_module.unwrap().main);
+        let mut main = module.main;
+        //The entry frame must also know the module that it belongs to
+        if let Some(idx) = self.imports.iter().position(|imp| std::ptr::eq(imp, module)) {
+            main.module = FuncModule::Imported(idx);
+        }
+        self.init(main);
 
         loop {
             if is_main_module {
@@ -404,11 +409,7 @@ impl<'a> AmaVM<'a> {
                     self.values.truncate((self.sp + 1) as usize);
                     self.frames.pop().unwrap();
                     self.op_push(val);
-                    let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
-                        &self.imports[mod_idx]
-                    } else {
-                        self.main_module
-                    };
+                    let ctx_module = self.func_module(self.frames.peek());
                     self.ctx_module.replace(ctx_module);
                     continue;
                 }
@@ -562,6 +563,13 @@ impl<'a> AmaVM<'a> {
         Ok(())
     }
 
+    fn func_module(&self, func: &AmaFunc<'a>) -> &'a Module<'a> {
+        match func.module {
+            FuncModule::Imported(mod_idx) => &self.imports[mod_idx],
+            FuncModule::Main => self.main_module,
+        }
+    }
+
     fn panic_and_throw(&mut self, error: &str) -> Result<(), AmaErr> {
         let mut frames_sp = self.frames.sp;
         let mut err_str = if frames_sp > 0 {
@@ -569,18 +577,22 @@ impl<'a> AmaVM<'a> {
         } else {
             String::from("")
         };
-        while let Ok(func) = self.frames.pop() {
+        while frames_sp >= 0 {
+            let func = *self.frames.peek();
+            self.frames.pop().unwrap();
+            //The functions in the trace may belong to different modules
+            let src_map = &self.func_module(&func).src_map;
             if frames_sp == 0 {
                 err_str.push_str(&format!(
                     "Erro na linha {}: {}.",
-                    offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                    offset_to_line(func.last_i, src_map),
                     error
                 ));
                 break;
             }
             err_str.push_str(&format!(
                 "    Linha {}, na função {}\n",
-                offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                offset_to_line(func.last_i, src_map),
                 func.name
             ));
             frames_sp = self.frames.sp;
-- 
2.43.0


From 8af99fa0d248b82d1318ca397344a8e7ccaaf02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 17/78] fix: use the same variant tags in every module

---
 amanda/compiler/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 203b736..450ebe1 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -257,6 +257,8 @@ class ByteGen:
                 continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
+            # The tags of the variants must be the same for every module
+            compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
             mod.compiled = True
-- 
2.43.0


From b8bf30b94d4f626e604315953de2405d10012530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 18/78] fix: reserve space for all of the locals of the entry
 code

---
 amanda/vm/src/vm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 92ab8cf..3cbbb6a 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -101,6 +101,10 @@ impl<'a> AmaVM<'a> {
     }
 
     fn init(&mut self, main: AmaFunc<'a>) {
+        //The locals of the entry code may not fit on the default stack
+        if main.locals > self.values.len() {
+            self.reserve_stack_space(main.locals - self.values.len());
+        }
         self.sp = self.values.len() as isize - 1;
         self.frames.push(main).unwrap();
         self.frames.peek_mut().bp = if self.sp > -1 { 0 } else { -1 };
-- 
2.43.0


From 56ef90d0c7bf6658edef5425c140e6bbd22317d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 19/78] fix: evaluate the value of 'escolha' once and check the
 blocks of its cases like any other

---
 amanda/compiler/codegen.py   | 19 +++++++++++++++
 amanda/compiler/transform.py | 45 +-----------------------------------
 2 files changed, 20 insertions(+), 44 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 450ebe1..798017a 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -717,6 +717,25 @@ class ByteGen:
 
         self.patch_label_loc(after_if)
 
+    def gen_escolha(self, node: ast.Escolha):
+        # The value that is compared with each of the cases is only evaluated once
+        value = self.store_temp(node.expression)
+        after_escolha = self.new_label()
+        for case in node.cases:
+            after_case = self.new_label()
+            self.gen(case.expression)
+            self.gen(value)
+            self.append_op(OpCode.OP_EQ)
+            self.append_op(OpCode.JUMP_IF_FALSE, after_case)
+            self.compile_block(case.block)
+            self.append_op(OpCode.JUMP, after_escolha)
+            self.patch_label_loc(after_case)
+
+        if node.default_case:
+            self.compile_block(node.default_case)
+
+        self.patch_label_loc(after_escolha)
+
     def gen_enquanto(self, node):
         after_loop = self.new_label()
         # Set the current loop exit
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index ddf6588..c8658a3 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -8,7 +8,7 @@ from amanda.compiler.symbols.core import (
     MethodSym,
     VariableSymbol,
 )
-from amanda.compiler.types.builtins import Builtins, SrcBuiltins
+from amanda.compiler.types.builtins import SrcBuiltins
 
 from typing import cast, Callable
 
@@ -63,49 +63,6 @@ class ASTTransformer:
         if node.of_type(ast.Converta):
             return node
 
-    def transform_escolha(self, node: ast.Escolha) -> ast.ASTNode:
-        token = node.token
-        new_token = lambda tt, lexeme: Token(tt, lexeme, token.line, token.col)
-        equality_op = lambda left, right: ast.BinOp(
-            new_token(TT.DOUBLEEQUAL, "=="),
-            left=left,
-            right=right,
-            ty=Builtins.Bool,
-        )
-        # check node
-        # transform node into ifs
-        expr = node.expression
-        # let
-        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
-        if not node.cases and not node.default_case:
-            return ast.NoOp()
-        elif not node.cases and node.default_case:
-            se_node.condition = ast.Constant(
-                new_token(TT.VERDADEIRO, "verdadeiro")
-            )
-            se_node.then_branch = node.default_case
-            return se_node
-        else:
-            first_case = node.cases[0]
-            del node.cases[0]
-            se_node.condition = equality_op(
-                left=first_case.expression,
-                right=node.expression,
-            )
-            se_node.then_branch = first_case.block
-            se_node.else_branch = node.default_case
-            for case in node.cases:
-                se_node.elsif_branches.append(
-                    ast.SenaoSe(
-                        token,
-                        equality_op(
-                            left=case.expression, right=node.expression
-                        ),
-                        case.block,
-                    )
-                )
-            return se_node
-
     def _is_option(self, ty: Type) -> bool:
         return ty.is_constructed_from(SrcBuiltins.Opcao)
 
-- 
2.43.0


From 7a082cf3c05e2275153d9814f25edf632e999efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 20/78] fix: promote every kind of integer expression to
 'real', not only constants, variables and operations

---
 amanda/compiler/check/core.py |  1 +
 amanda/compiler/codegen.py    | 30 +++++++++++++++++++-----------
 amanda/compiler/transform.py  |  3 +++
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 83cb447..8fe5f2a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -964,6 +964,7 @@ class Analyzer(ast.Visitor):
                     else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
                 )
         self.visit(value)
+        value.prom_type = value.eval_type.promote_to(index.eval_type)
         if not self.types_match(index.eval_type, value.eval_type):
             self.ctx_node = node
             self.error(
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 798017a..f0d5b65 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -12,8 +12,9 @@ from amanda.compiler.check.exhaustiveness import (
 )
 from amanda.compiler.symbols.base import Constructor, Symbol
 import amanda.compiler.symbols.core as symbols
-from amanda.compiler.types.builtins import Builtins
+from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 from amanda.compiler.types.core import (
+    ConstructedTy,
     IntCons,
     Primitive,
     Registo,
@@ -430,6 +431,11 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        # Assignments do not leave a value on the stack
+        if isinstance(node, ast.Expr) and not isinstance(
+            node, (ast.Assign, ast.Set, ast.IndexSet)
+        ):
+            self.gen_auto_cast(node)
         return result
 
     def enter_block(self, scope):
@@ -475,7 +481,6 @@ class ByteGen:
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
-        self.gen_auto_cast(node.prom_type)
 
     def global_name(self, symbol: Symbol) -> str:
         """Name of a symbol in the globals of its module. Methods of different
@@ -512,11 +517,7 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        # TODO: Handle prom_type later
-        prom_type = node.prom_type
-        var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
-        self.gen_auto_cast(prom_type)
 
     def gen_path(self, node: ast.Path):
         # raise ValueError("Symbol should have been resolved before codegen!")
@@ -595,10 +596,13 @@ class ByteGen:
             case ast.Assign():
                 self.gen(expr)
                 self.load_variable(expr.left.var_symbol)
+                self.gen_auto_cast(expr)
             case ast.IndexSet():
                 self.gen(self.gen_index_assign(expr, keep_value=True))
+                self.gen_auto_cast(expr)
             case ast.Set():
                 self.gen(self.gen_field_assign(expr, keep_value=True))
+                self.gen_auto_cast(expr)
             case _:
                 self.gen(expr)
 
@@ -630,7 +634,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_binop(self, node: ast.BinOp):
         operator = node.token.token
@@ -689,7 +692,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_se(self, node):
         else_branch = node.else_branch
@@ -959,7 +961,6 @@ class ByteGen:
             self.append_op(OpCode.BUILD_OBJ, len(node.fargs))
         else:
             self.append_op(OpCode.CALL_FUNCTION, len(node.fargs))
-        self.gen_auto_cast(node.prom_type)
 
     def gen_namedarg(self, node: ast.NamedArg):
         self.load_name(node.name.lexeme)
@@ -987,8 +988,15 @@ class ByteGen:
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
-    def gen_auto_cast(self, prom_type: Type):
-        if not prom_type or prom_type != Builtins.Real:
+    def gen_auto_cast(self, node: ast.Expr):
+        """Promotes the value on the top of the stack. Integers are the only
+        values that change when they are promoted"""
+        if node.eval_type != Builtins.Int or not node.prom_type:
+            return
+        prom_type = node.prom_type
+        while prom_type.is_constructed_from(SrcBuiltins.Opcao):
+            prom_type = cast(ConstructedTy, prom_type).bound_ty_args["T"]
+        if prom_type != Builtins.Real:
             return
         self.load_variable(prom_type)
         self.append_op(OpCode.CAST, 0)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index c8658a3..be2c858 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -33,6 +33,9 @@ class ASTTransformer:
             return node
         if new_node == node:
             return node
+        if isinstance(node, ast.Expr) and isinstance(new_node, ast.Expr):
+            new_node.eval_type = node.eval_type
+            new_node.prom_type = node.prom_type
         parent: ast.ASTNode = node.parent
         if not parent:
             raise ValueError(
-- 
2.43.0


From 55e8ade27806df05bc689ea3186114992b088f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 21/78] fix: 'quebra' and 'continua' inside of a 'para' refer
 to that loop

---
 amanda/compiler/check/core.py |  6 ++++++
 amanda/compiler/codegen.py    | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8fe5f2a..4370e04 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1163,8 +1163,14 @@ class Analyzer(ast.Visitor):
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
+
+        in_loop_state = self.in_loop
+        self.in_loop = True
+
         self.visit(node.statement, scope)
 
+        self.in_loop = in_loop_state
+
     def visit_paraexpr(self, node: ast.ParaExpr):
         # self.visit(node.name)
         self.visit(node.range_expr)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index f0d5b65..94674e4 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -778,6 +778,14 @@ class ByteGen:
         # BEGIN LOOP
         after_loop = self.new_label()
         loop = self.new_label()
+        update = self.new_label()
+        # Set the current loop start and exit. The control variable must be
+        # updated before the next iteration
+        loop_start_state = self.ctx_loop_start
+        self.ctx_loop_start = update
+        loop_exit_state = self.ctx_loop_exit
+        self.ctx_loop_exit = after_loop
+
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -795,6 +803,7 @@ class ByteGen:
         for child in block.children:
             self.gen(child)
         # update: control_var += inc
+        self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
         else:
@@ -808,6 +817,10 @@ class ByteGen:
         self.patch_label_loc(after_loop)
         self.exit_block()
 
+        # Restore the state of the outer loop
+        self.ctx_loop_start = loop_start_state
+        self.ctx_loop_exit = loop_exit_state
+
     def gen_iguala(self, node: ast.Iguala):
         # The blocks of the arms are nested inside the scope of the 'iguala',
         # so the current scope must be restored after generating them
-- 
2.43.0


From a758bbe3e1ab9479bb7949c6a674f6817610951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 22/78] fix: every 'senaose' must return for the 'se' to return

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 4370e04..af5abec 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -100,6 +100,10 @@ class Analyzer(ast.Visitor):
             False
             if not node.else_branch
             else self.has_return(node.then_branch)
+            and all(
+                self.has_return(branch.then_branch)
+                for branch in node.elsif_branches
+            )
             and self.has_return(node.else_branch)
         )
 
-- 
2.43.0


From 0228ba1bce84daf3fb6d0e7a397871d6c7006e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 23/78] fix: arms of an 'iguala' that can not be reached are
 not transformed

---
 amanda/compiler/check/iguala.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 18bf5bf..8daf58a 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -60,6 +60,12 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 iguala.token,
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
+    # The arms that can never be reached are not part of the program
+    iguala.arms = [
+        arm
+        for arm in iguala.arms
+        if any(arm.body is block for block in tree.diagnostics.reachable)
+    ]
     # Validate reachable blocks
     first_block = tree.diagnostics.reachable[0]
     checker.visit(first_block)
-- 
2.43.0


From 26020c80640f1ec42b826eb98ba24926d5dd6c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 24/78] fix: do not format the messages of the errors twice

---
 amanda/compiler/check/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index af5abec..be07a39 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -147,13 +147,15 @@ class Analyzer(ast.Visitor):
         )
 
     def error(self, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # Messages without arguments are already formatted
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, self.ctx_node.token.line
         )
 
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # Messages without arguments are already formatted
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, loc_tok.line
         )
@@ -888,7 +890,9 @@ class Analyzer(ast.Visitor):
             not target.eval_type.supports_fields()
             and not target.eval_type.supports_methods()
         ):
-            self.error("O Tipo '{ty_sym.name}' nenhum atributo ou método")
+            self.error(
+                f"O Tipo '{target.eval_type.name}' nenhum atributo ou método"
+            )
         ty_sym = target.eval_type  # type: ignore
         field = node.member.lexeme
         field_sym = cast(Typed, ty_sym.get_property(field))
-- 
2.43.0


From 410994c3c7f3d31ee0167dc4a54a6eacf3e3e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 25/78] fix: reject every reference to a variable inside of its
 own declaration

---
 amanda/compiler/check/core.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index be07a39..5e821e4 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -477,6 +477,19 @@ class Analyzer(ast.Visitor):
             self.ctx_node = node
             self.error(f"O atributo '{name}' já foi declarado neste registo")
 
+    def references(self, node: ast.ASTNode, symbol: symbols.Symbol) -> bool:
+        """Checks if a variable is used anywhere inside of a node"""
+        if isinstance(node, ast.Variable) and node.var_symbol is symbol:
+            return True
+        found = False
+
+        def check_child(child: ast.ASTNode, _: ast.ChildAttr):
+            nonlocal found
+            found = found or self.references(child, symbol)
+
+        node.for_each_child(check_child)
+        return found
+
     def visit_vardecl(self, node: ast.VarDecl):
         name = node.name.lexeme
         self.assert_can_use_ident(node, name)
@@ -492,11 +505,12 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if assign.right.token.lexeme == name:
+            self.visit(assign)
+            if self.references(assign.right, symbol):
+                self.ctx_node = node
                 self.error(
                     f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
                 )
-            self.visit(assign)
         if self.scope_depth == 0:
             symbol.is_global = True
 
-- 
2.43.0


From 5a70fa3ec55513ea00ff5b62e6a07693f03d4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 26/78] fix: digits that are not decimal, and integers that are
 too large, are not valid numbers

---
 amanda/compiler/check/iguala.py |  5 ++++-
 amanda/compiler/parse.py        | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 8daf58a..7fecd42 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -135,7 +135,10 @@ def check_pattern(
             pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
             )
-        case ast.IntPattern():
+        case ast.IntPattern(val=val):
+            # The limits of a pattern are the same of any other literal
+            checker.visit(ast.Constant(val))
+            checker.ctx_node = pattern
             pattern.eval_type = Builtins.Int
         case ast.StrPattern():
             pattern.eval_type = Builtins.Texto
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 8c3716e..132e36e 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -16,6 +16,7 @@ class Lexer:
     EOF = "__eof__"
     # Errors that happen during tokenization
     INVALID_SYMBOL = "O símbolo '{symbol}' não foi reconhecido"
+    INVALID_NUMBER = "Número inteiro demasiado grande"
     INVALID_STRING = "A sequência de caracteres não foi delimitada"
 
     def __init__(self, filename, src):
@@ -122,15 +123,15 @@ class Lexer:
 
     def number(self):
         result = ""
-        while self.current_char.isdigit():
+        while self.current_char.isdecimal():
             result += self.current_char
             self.advance()
         if self.current_char == ".":
             # lookahead to see next char i
-            if self.lookahead().isdigit():
+            if self.lookahead().isdecimal():
                 result += "."
                 self.advance()
-                while self.current_char.isdigit():
+                while self.current_char.isdecimal():
                     result += self.current_char
                     self.advance()
         if "." in result:
@@ -138,8 +139,14 @@ class Lexer:
                 TT.REAL, float(result), self.line, self.pos - (len(result) + 1)
             )
 
+        try:
+            value = int(result)
+        except ValueError:
+            # There is a limit on the number of digits of an integer
+            self.error(self.INVALID_NUMBER)
+
         return Token(
-            TT.INTEGER, int(result), self.line, self.pos - (len(result) + 1)
+            TT.INTEGER, value, self.line, self.pos - (len(result) + 1)
         )
 
     def escape_seq(self, char, result, seq):
@@ -242,7 +249,7 @@ class Lexer:
             if self.current_char == "f" and self.lookahead() in ('"', "'"):
                 return self.format_str()
             return self.identifier()
-        elif self.current_char.isdigit():
+        elif self.current_char.isdecimal():
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
-- 
2.43.0


From 127e91eec96f061c8160e2492c33604b28927546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 27/78] fix: count the lines of the strings that span more than
 one line

---
 amanda/compiler/parse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 132e36e..23730ff 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -161,6 +161,7 @@ class Lexer:
         result = StringIO()
         symbol = self.current_char
         start_pos = self.pos
+        start_line = self.line
         self.advance()
         while self.current_char != symbol:
             if self.current_char == "\\":
@@ -176,8 +177,12 @@ class Lexer:
                     self.advance()
                 continue
             if self.current_char == Lexer.EOF:
+                # Refer to the line where the string begins
+                self.line = start_line
                 self.error(self.INVALID_STRING, line=self.line)
             result.write(self.current_char)
+            if self.current_char == "\n":
+                self.line += 1
             self.advance()
         self.advance()
         whole_str = result.getvalue()
@@ -185,7 +190,7 @@ class Lexer:
         return Token(
             TT.STRING,
             f"{symbol}{whole_str}{symbol}",
-            self.line,
+            start_line,
             start_pos,
         )
 
@@ -253,11 +258,12 @@ class Lexer:
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
+        symbol = self.current_char
         tok = self.common_toks()
         if tok:
             return tok
 
-        self.error(self.INVALID_SYMBOL, symbol=self.current_char)
+        self.error(self.INVALID_SYMBOL, symbol=symbol)
 
 
 class Parser:
-- 
2.43.0


From 864722c8d9f234f3b0ec0dc6394f6b54b2a5e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 28/78] fix: map each range of instructions to the line that
 generated it

---
 amanda/compiler/codegen.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 94674e4..3cc56da 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -196,9 +196,9 @@ class ByteGen:
         self.ctx_module: Module = module
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
-        self.src_map: dict[int, list[int]] = (
-            {}
-        )  # Maps source lines to bytecode offset
+        # Maps ranges of bytecode offsets to source lines. The ops of a line
+        # may be split by the ops of other lines: (start, end, line)
+        self.src_map: list[tuple[int, int, int]] = []
         self.modules: dict[str, int] = {}
 
     def compile_builtin(self, raw: bool = True) -> bytes | dict:
@@ -277,18 +277,10 @@ class ByteGen:
         ops.close()
 
         src_map = []
-        for lineno, offsets in self.src_map.items():
+        for start, end, lineno in self.src_map:
             if lineno == 0:
                 continue
-            # Offset array must contain start and end
-            # If it only contains one value, start == end
-            if len(offsets) == 1:
-                offsets.append(offsets[0])
-            assert (
-                len(offsets) == 2
-            ), f"Found line with offset != 2: {(lineno, offsets)}"
-            offsets.append(lineno)
-            src_map.extend(offsets)
+            src_map.extend((start, end, lineno))
         module = {
             "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
             "builtin": 1 if self.ctx_module.builtin else 0,
@@ -318,14 +310,10 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
-        if self.lineno in self.src_map:
-            offsets = self.src_map[self.lineno]
-            if len(offsets) < 2:
-                offsets.append(self.ip)
-            elif offsets[-1] < self.ip:
-                offsets[-1] = self.ip
-        else:
-            self.src_map[self.lineno] = [self.ip]
+        start = self.ip
+        if self.src_map and self.src_map[-1][2] == self.lineno:
+            start = self.src_map.pop()[0]
+        self.src_map.append((start, self.ip, self.lineno))
         self.ip += op.op_size() // OP_SIZE
         self.ops.append((op, args))
 
@@ -426,6 +414,7 @@ class ByteGen:
         node_class = type(node).__name__.lower()
         method_name = f"gen_{node_class}"
         gen_method = getattr(self, method_name, self.bad_gen)
+        prev_lineno = self.lineno
         self.lineno = getattr(node, "lineno", self.lineno)
         if node_class == "block":
             result = gen_method(node, args)
@@ -436,6 +425,8 @@ class ByteGen:
             node, (ast.Assign, ast.Set, ast.IndexSet)
         ):
             self.gen_auto_cast(node)
+        # The remaining ops of the parent belong to its own line
+        self.lineno = prev_lineno
         return result
 
     def enter_block(self, scope):
-- 
2.43.0


From 41c33885b7a62f0f9e165e963be6aaeea8815921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 29/78] fix: report the limits on the number of elements,
 attributes and arguments

---
 amanda/compiler/check/core.py  | 36 ++++++++++++++++++++++++++--------
 amanda/compiler/check/uniao.py |  7 +++++++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 5e821e4..af339b8 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -34,6 +34,9 @@ from utils.tycheck import unwrap
 
 MAX_AMA_INT = 2**63 - 1
 
+# Max number of values that can be used by a single instruction
+MAX_OP_ARGS = 2**8 - 1
+
 
 class Analyzer(ast.Visitor):
 
@@ -526,10 +529,12 @@ class Analyzer(ast.Visitor):
 
     def validate_num_params(self, node: ast.FunctionDecl):
         # Check that func is within max param number
-        if len(node.params) > (2**8) - 1:
-            is_method = node.of_type(ast.MethodDecl)
+        is_method = node.of_type(ast.MethodDecl)
+        # The target of a method is also one of its params
+        num_params = len(node.params) + (1 if is_method else 0)
+        if num_params > MAX_OP_ARGS:
             err_msg = (
-                "Os métodos só podem ter até 255 parâmetros"
+                "Os métodos só podem ter até 255 parâmetros, incluindo o 'alvo'"
                 if is_method
                 else f"As funções só podem ter até 255 parâmetros"
             )
@@ -648,6 +653,7 @@ class Analyzer(ast.Visitor):
             f"Métodos só podem ser declarados no escopo global",
             f"{method_desc} já foi declarado anteriormente",
         )
+        self.validate_num_params(node)
         # Checking return type
         return_ty = self.get_type(node.return_ty)
         symbol = symbols.MethodSym(
@@ -729,6 +735,11 @@ class Analyzer(ast.Visitor):
         self.ctx_reg = registo
         self.enter_scope(reg_scope)
 
+        if len(node.fields) > MAX_OP_ARGS:
+            self.error(
+                f"Os registos só podem ter até {MAX_OP_ARGS} atributos"
+            )
+
         for field in node.fields:
             self.visit_vardecl(field)
 
@@ -785,6 +796,10 @@ class Analyzer(ast.Visitor):
     def visit_fmtstr(self, node):
         txt_type = self.global_scope.resolve("texto")
         node.eval_type = txt_type
+        if len(node.parts) > MAX_OP_ARGS:
+            self.error(
+                f"String de formatação inválida. Só pode conter até {MAX_OP_ARGS} partes"
+            )
         for part in node.parts:
             self.visit(part)
             expr_type = part.eval_type
@@ -820,6 +835,10 @@ class Analyzer(ast.Visitor):
         node.eval_type = Vector(self.ctx_module, list_type)
         if len(elements) == 0:
             return
+        if len(elements) > MAX_OP_ARGS:
+            self.error(
+                f"Uma lista só pode ser criada com até {MAX_OP_ARGS} elementos"
+            )
         for i, element in enumerate(elements):
             self.visit(element)
             element_type = element.eval_type
@@ -1276,9 +1295,10 @@ class Analyzer(ast.Visitor):
         if fn == BuiltinFn.VEC:
             # TODO: When vargs are implemented, make sure to
             # come here and change the way this node works
-            assert (
-                len(node.fargs) < 256
-            ), "Builtin call exceeded max number of args"
+            if len(node.fargs) > MAX_OP_ARGS:
+                self.error(
+                    f"A função 'vec' só pode ser invocada com até {MAX_OP_ARGS} argumentos"
+                )
             if len(node.fargs) < 2:
                 self.error(
                     f"Função 'vec' deve ser invocada com pelo menos 2 argumentos"
@@ -1302,9 +1322,9 @@ class Analyzer(ast.Visitor):
                 vec_type = Vector(self.ctx_module, vec_type)
             node.eval_type = vec_type
         elif fn == BuiltinFn.ANEXA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             value = node.fargs[1]
-            self.check_vec_op(fn, node)
 
             vec_t = vec_expr.eval_type
             el_type = vec_t.element_type
@@ -1316,9 +1336,9 @@ class Analyzer(ast.Visitor):
             value.prom_type = val_t.promote_to(el_type)
             node.eval_type = cast(Type, self.global_scope.resolve("vazio"))
         elif fn == BuiltinFn.REMOVA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             index = node.fargs[1]
-            self.check_vec_op(fn, node)
             if index.eval_type != Builtins.Int:
                 self.error(
                     "O argumento 2 da função 'remova' deve ser um número inteiro"
diff --git a/amanda/compiler/check/uniao.py b/amanda/compiler/check/uniao.py
index dbf9dbe..3ed96b8 100644
--- a/amanda/compiler/check/uniao.py
+++ b/amanda/compiler/check/uniao.py
@@ -5,6 +5,9 @@ from amanda.compiler.check.checker import Checker
 from amanda.compiler.error import Errors
 from amanda.compiler.types.core import Uniao, Variant
 
+# The arguments of a variant are used by a single instruction
+MAX_VARIANT_PARAMS = 2**8 - 1
+
 
 def check_uniao(uniao: ast.Uniao, checker: Checker):
     name = uniao.name.lexeme
@@ -36,6 +39,10 @@ def check_variant(uniao: Uniao, variant: ast.UniaoVariant, checker: Checker):
             uniao=uniao.name,
             variant=variant_name,
         )
+    if len(variant.params) > MAX_VARIANT_PARAMS:
+        checker.error(
+            f"As variantes só podem ter até {MAX_VARIANT_PARAMS} argumentos"
+        )
     params = [checker.get_type(p) for p in variant.params]
     uniao.add_variant(variant_name, params)
 
-- 
2.43.0


From 4b658f87c2a7b55cef889065ed97717b24e9d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 30/78] fix: report the limits of the tables of a module and of
 nested code

---
 amanda/__main__.py         | 23 +++++++++++++++++------
 amanda/compiler/codegen.py | 16 ++++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 05ae739..8258a1c 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -14,26 +14,37 @@ from amanda.compiler.codegen import ByteGen
 from amanda.libamanda import run_module
 
 
+# The compiler visits nested expressions and blocks recursively
+sys.setrecursionlimit(20_000)
+
+
 def write_file(name, code):
     with open(name, "w") as output:
         output.write(code)
 
 
-def run_frontend(filename) -> tuple:
+def compile_file(filename) -> tuple[ByteGen, bytes]:
     try:
         program = parse(filename)
-        valid_program = Analyzer(filename, [], Module(filename)).visit_module(
+        module, imports = Analyzer(filename, [], Module(filename)).visit_module(
             program
         )
-        return valid_program
+        compiler = ByteGen(module)
+        return compiler, compiler.compile(imports)
     except AmandaError as e:
         throw_error(e)
+    except RecursionError:
+        throw_error(
+            AmandaError.common_error(
+                filename,
+                "O programa contém demasiadas expressões ou blocos aninhados",
+                1,
+            )
+        )
 
 
 def run_file(args):
-    module, imports = run_frontend(args.file)
-    compiler = ByteGen(module)
-    bin_obj = compiler.compile(imports)
+    compiler, bin_obj = compile_file(args.file)
 
     if args.debug:
         write_file("debug.amasm", compiler.make_debug_asm())
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 3cc56da..cd7090d 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -463,11 +463,17 @@ class ByteGen:
         else:
             idx = len(tab)
             tab[item] = idx
-        assert (
-            idx < (2**16) - 1
-        ), f"Too many items in a single table for the current file."
+        self.check_u16_index(idx)
         return idx
 
+    def check_u16_index(self, idx: int):
+        if idx >= (2**16) - 1:
+            raise AmandaError.common_error(
+                self.ctx_module.fpath,
+                "O módulo contém demasiados valores, nomes ou variáveis",
+                max(self.lineno, 1),
+            )
+
     def gen_constant(self, node: ast.Constant):
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
@@ -561,9 +567,11 @@ class ByteGen:
     def declare_local(self, symbol: Symbol) -> int:
         # A local that already has a slot must keep it, otherwise the new slot
         # would be shared with the next local
-        return self.func_locals.setdefault(
+        idx = self.func_locals.setdefault(
             symbol.out_id, len(self.func_locals)
         )
+        self.check_u16_index(idx)
+        return idx
 
     def store_temp(self, expr: ast.Expr) -> ast.Variable:
         """Evaluates an expression, stores its value in a new local and
-- 
2.43.0


From b937f9914194f9d47d90f4edd1b72c572b23c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 31/78] fix: conversions to optional types, and of records,
 unions and 'nulo' stored in an 'indef'

---
 amanda/compiler/codegen.py      | 28 ++++++++++++++++++++++++++--
 amanda/vm/src/ama_value.rs      |  3 +++
 amanda/vm/src/values/amatype.rs |  6 ++++++
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index cd7090d..087b74c 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -992,12 +992,36 @@ class ByteGen:
         target_t = node.target.eval_type
         new_t = node.eval_type
         self.gen(node.target)
+        if not new_t.is_constructed_from(SrcBuiltins.Opcao):
+            self.gen_cast(target_t, new_t)
+            return
+        # The result of converting to an optional type is either 'nulo' or the
+        # result of converting to the type of its value
+        inner_t = cast(ConstructedTy, new_t).bound_ty_args["T"]
+        if target_t == Builtins.Nulo:
+            return
+        if target_t != Builtins.Indef:
+            self.gen_cast(target_t, inner_t)
+            return
+        value = self.store_tos(node.target)
+        is_nulo = self.new_label()
+        self.gen(value)
+        self.append_op(OpCode.OP_ISNULL)
+        self.append_op(OpCode.OP_NOT)
+        self.append_op(OpCode.JUMP_IF_FALSE, is_nulo)
+        self.gen(value)
+        self.gen_cast(target_t, inner_t)
+        self.set_variable(value.var_symbol)
+        self.patch_label_loc(is_nulo)
+        self.gen(value)
+
+    def gen_cast(self, value_t: Type, new_t: Type):
         # Converting to same type, can ignore this
         # TODO: Do this in sem analysis
-        if new_t == target_t or new_t == Builtins.Indef:
+        if new_t == value_t or new_t == Builtins.Indef:
             return
         self.load_variable(new_t)
-        arg = 0 if target_t != Builtins.Indef else 1
+        arg = 0 if value_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
     def gen_auto_cast(self, node: ast.Expr):
diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 21f3a2f..79f8bf0 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -81,6 +81,9 @@ impl<'a> AmaValue<'a> {
             AmaValue::F64(_) => Type::Real,
             AmaValue::Bool(_) => Type::Bool,
             AmaValue::Vector(_) => Type::Vector,
+            AmaValue::RegObj(_) => Type::Registo,
+            AmaValue::Variant(..) => Type::Uniao,
+            AmaValue::None => Type::Nulo,
             _ => unimplemented!("Cannot return type for this value: {:?}", self),
         }
     }
diff --git a/amanda/vm/src/values/amatype.rs b/amanda/vm/src/values/amatype.rs
index abe3451..3424e10 100644
--- a/amanda/vm/src/values/amatype.rs
+++ b/amanda/vm/src/values/amatype.rs
@@ -7,6 +7,9 @@ pub enum Type {
     Texto,
     Bool,
     Vector,
+    Registo,
+    Uniao,
+    Nulo,
 }
 
 impl Type {
@@ -17,6 +20,9 @@ impl Type {
             Type::Texto => "texto",
             Type::Bool => "bool",
             Type::Vector => "Vector",
+            Type::Registo => "Registo",
+            Type::Uniao => "Uniao",
+            Type::Nulo => "nulo",
         }
     }
 }
-- 
2.43.0


From a42bf6d9d387f36bcbe2cc28d604ea24a7985101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 32/78] fix: reject the assignments to the value of an optional
 variable

---
 amanda/compiler/check/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index af339b8..337d63b 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -963,6 +963,11 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Atribuição inválida. As variáveis globais de um módulo importado não podem ser modificadas externamente"
             )
+        if target.target.eval_type.is_constructed_from(SrcBuiltins.Opcao):
+            self.ctx_node = node
+            self.error(
+                f"Atribuição inválida. O valor de uma variável do tipo '{target.target.eval_type}' não pode ser modificado por meio do atributo '{target.member.lexeme}'"
+            )
         self.visit(expr)
         expr.prom_type = expr.eval_type.promote_to(target.eval_type)
         if not self.types_match(target.eval_type, expr.eval_type):
-- 
2.43.0


From 03ed1e9250666a6fd2d6e6fe9126015524b9fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 33/78] fix: reject methods of a type constructed from a
 generic type

---
 amanda/compiler/check/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 337d63b..2068c46 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -14,6 +14,7 @@ from amanda.compiler.types.builtins import (
     builtin_module,
 )
 from amanda.compiler.types.core import (
+    ConstructedTy,
     ModuleTy,
     Primitive,
     Type,
@@ -635,6 +636,10 @@ class Analyzer(ast.Visitor):
 
         # Checking target type
         target_ty = self.get_type(node.target_ty)
+        if isinstance(target_ty, ConstructedTy):
+            self.error(
+                f"Métodos não podem ser declarados para o tipo '{target_ty}', apenas para o tipo genérico '{target_ty.generic_ty}'"
+            )
         method_name = node.name.lexeme
         method_id = target_ty.full_field_path(method_name)
         method_desc = f"O método '{method_name}' do tipo '{target_ty}'"
-- 
2.43.0


From 71a3ff4f205237604c9acd79736bf8f35168eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 34/78] fix: the arguments of a generic type follow the order
 of its parameters

---
 amanda/compiler/check/checker.py |  4 ++--
 amanda/compiler/check/core.py    | 23 +++++++++++------------
 amanda/compiler/types/core.py    | 10 +++++-----
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index f5986d1..ab567d6 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -16,11 +16,11 @@ class Checker(Protocol):
     ctx_module: Module
     scope_depth: int
 
-    def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
+    def get_generic_params(self, node: ASTNode) -> list[TypeVar]: ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
     def enter_ty_ctx(self, scope: symbols.Scope): ...
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope: ...
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope: ...
     def define_symbol(
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ): ...
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 2068c46..758db1e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -698,21 +698,20 @@ class Analyzer(ast.Visitor):
 
     def get_generic_params(
         self, node: ast.Registo | ast.MethodDecl
-    ) -> set[TypeVar]:
-        # TODO: Notify in case of duplicate generic param
+    ) -> list[TypeVar]:
         # TODO: Make sure to throw an error for unused generic params
-        return (
-            set(
-                map(
-                    lambda t: TypeVar(t.name.lexeme, self.ctx_module),
-                    node.generic_params,
+        # The arguments of a generic type are given in the order of its params
+        params: list[TypeVar] = []
+        for t in node.generic_params or []:
+            param = TypeVar(t.name.lexeme, self.ctx_module)
+            if param in params:
+                self.error(
+                    f"o parâmetro genérico '{param}' já foi especificado"
                 )
-            )
-            if node.generic_params
-            else set()
-        )
+            params.append(param)
+        return params
 
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope:
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope:
         ctx = symbols.Scope(self.ty_ctx)
         for param in params:
             ctx.define(param.name, param)
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 0b19797..960ef11 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -336,13 +336,13 @@ class Registo(Type):
         name: str,
         module: Module,
         fields: dict[str, VariableSymbol],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.fields = fields
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def is_callable(self) -> bool:
@@ -459,20 +459,20 @@ class Uniao(Type):
     name: str
     module: Module
     variants: dict[str, Variant]
-    ty_params: set[TypeVar]
+    ty_params: list[TypeVar]
 
     def __init__(
         self,
         name: str,
         module: Module,
         variants: dict[str, Variant],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.variants = variants
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def add_variant(self, name: str, params: list[Type]):
-- 
2.43.0


From 0f480d25007c581129aa35ac107b086e7277939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 35/78] fix: types with the same name declared in different
 scopes and modules are different types

---
 amanda/compiler/types/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 960ef11..786bfad 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -407,7 +407,14 @@ class Registo(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Registo) and self.name == other.name
+        if not isinstance(other, Registo):
+            return False
+        # The builtin module is loaded once for each module that is analyzed
+        return self is other or (
+            self._is_opcao()
+            and other._is_opcao()
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
@@ -532,7 +539,8 @@ class Uniao(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Uniao) and self.name == other.name
+        # Types with the same name can be declared in different scopes and modules
+        return self is other
 
     def __str__(self) -> str:
         return self.name
-- 
2.43.0


From 9e23ac7b8cc6706e67f49d101b11fa773319da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 36/78] fix: errors of compilation are reported by the exit
 status, and for sources that are not UTF-8

---
 amanda/compiler/error.py |  8 +++-----
 amanda/compiler/parse.py | 10 ++++++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 320981d..7c21bf7 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -91,17 +91,15 @@ def throw_error(err: AmandaError) -> NoReturn:
     # Attempt to get error line from file
     filename = path.abspath(err.fpath)
     assert path.isfile(filename), "Invalid filename supplied to error"
-    context = None
-    with open(filename, "r", encoding="utf8") as f:
+    context = ""
+    with open(filename, "r", encoding="utf8", errors="replace") as f:
         for lineno, line in enumerate(f):
             if lineno == err.line - 1:
                 context = line.strip()
                 break
-    # Line should always be valid because it came from file
-    assert context is not None, "Context should always be a line from the file"
 
     sys.stderr.write(fmt_error(context, err))
-    sys.exit()
+    sys.exit(1)
 
 
 def get_info_from_tb(exception: Exception, filename: str) -> Any:
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 23730ff..c8aaa41 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1377,8 +1377,14 @@ class Parser:
 
 
 def parse(filename):
-    with open(filename, encoding="utf-8") as src_file:
-        src = StringIO(src_file.read())
+    try:
+        with open(filename, encoding="utf-8") as src_file:
+            src = StringIO(src_file.read())
+    except UnicodeDecodeError as e:
+        line = e.object[: e.start].count(b"\n") + 1
+        raise AmandaError.common_error(
+            filename, "O ficheiro não está codificado em UTF-8", line
+        )
     module = Parser(filename, src).parse()
     module.tag_children()
     return module
-- 
2.43.0


From efe7ffee0b3728b5ec2db0705dcddbd52d04a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 37/78] fix: reject the vectors of 'vec' whose elements do not
 have an initial value

---
 amanda/compiler/check/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 758db1e..fdf05e4 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1325,6 +1325,11 @@ class Analyzer(ast.Visitor):
             # Is arg 1 a vector type?
             if type(el_type) == Vector:
                 self.error(f"O tipo de um vector deve ser um tipo simples")
+            # The elements of the vector must have an initial value
+            if not el_type.zero_initialized:
+                self.error(
+                    f"A função 'vec' não pode inicializar elementos do tipo '{el_type}'"
+                )
             # Set type based on dimensions
             vec_type = Vector(self.ctx_module, el_type)
             for i in range(len(node.fargs[1:]) - 1):
-- 
2.43.0


From 50e557e0531c1406d40abfdef9cee79239bf0a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 38/78] fix: the expressions of an f-string are on the line of
 the string

---
 amanda/compiler/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c8aaa41..53c8bde 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1195,6 +1195,8 @@ class Parser:
             )
         expr.seek(0)
         self.lexer = Lexer(self.filename, expr)
+        # The expression is on the line of the string, not on a file of its own
+        self.lexer.line = token.line
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
-- 
2.43.0


From 4efee7a251633db9aa1e403ef3bd247263cfddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 39/78] fix: assignments to the elements of vectors of texts,
 records, unions and optionals

---
 amanda/compiler/check/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index fdf05e4..50ac510 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1005,14 +1005,14 @@ class Analyzer(ast.Visitor):
         index = node.index
         value = node.value
         self.visit(index)
-        idx_ty = index.eval_type
-        if not idx_ty.supports_index_set():
-            if idx_ty.tag == Types.TTEXTO:
-                self.error(
-                    f"As strings não podem ser modificadas por meio de índices"
-                    if idx_ty.tag == Types.TTEXTO
-                    else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
-                )
+        # What is modified is the indexed value, not its item
+        target_ty = index.target.eval_type
+        if not target_ty.supports_index_set():
+            self.error(
+                f"As strings não podem ser modificadas por meio de índices"
+                if target_ty == Builtins.Texto
+                else f"Itens do tipo '{target_ty}' não podem ser modificadas por meio de índices"
+            )
         self.visit(value)
         value.prom_type = value.eval_type.promote_to(index.eval_type)
         if not self.types_match(index.eval_type, value.eval_type):
-- 
2.43.0


From e245d184f2d414c9ef480de0b09be7e3e9f4e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 40/78] fix: conditions, 'escolha' and sizes of vectors with a
 type that is not primitive are reported

---
 amanda/compiler/check/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 50ac510..af055a5 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1152,7 +1152,7 @@ class Analyzer(ast.Visitor):
 
     def visit_se(self, node: ast.Se):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.error(f"a condição da instrução 'se' deve ser um valor lógico")
         self.visit(node.then_branch)
         elsif_branches = node.elsif_branches
@@ -1165,7 +1165,7 @@ class Analyzer(ast.Visitor):
         expr = node.expression
         self.visit(expr)
         expr_type = expr.eval_type
-        if expr_type.tag not in (Types.TINT, Types.TTEXTO):
+        if expr_type not in (Builtins.Int, Builtins.Texto):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
@@ -1190,7 +1190,7 @@ class Analyzer(ast.Visitor):
 
     def visit_enquanto(self, node: ast.Enquanto):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.ctx_node = node
             self.error(
                 f"a condição da instrução 'enquanto' deve ser um valor lógico"
@@ -1315,7 +1315,7 @@ class Analyzer(ast.Visitor):
             # Is size given valid?
             for arg in node.fargs[1:]:
                 self.visit(arg)
-                if arg.eval_type.tag != Types.TINT:
+                if arg.eval_type != Builtins.Int:
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
-- 
2.43.0


From 714de1b76c9dc08e14053e6c8dc1804a051f8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 41/78] fix: local variables with the name of a type do not
 change the types of literals and of 'para'

---
 amanda/compiler/check/core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index af055a5..d18a7bf 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -816,9 +816,8 @@ class Analyzer(ast.Visitor):
     # TODO: Rename this to literal
     def visit_constant(self, node: ast.Constant):
         constant = node.token.token
-        scope = self.ctx_scope
         if constant == TT.INTEGER:
-            node.eval_type = scope.resolve("int")
+            node.eval_type = Builtins.Int
             int_value = int(node.token.lexeme)
             if int_value > MAX_AMA_INT:
                 self.error(
@@ -1208,9 +1207,7 @@ class Analyzer(ast.Visitor):
         self.visit(node.expression)
         # Define control variable for loop
         name = node.expression.name.lexeme
-        sym = symbols.VariableSymbol(
-            name, self.ctx_scope.resolve("int"), self.ctx_module
-        )
+        sym = symbols.VariableSymbol(name, Builtins.Int, self.ctx_module)
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
 
-- 
2.43.0


From d7f9ff6263692a1458aab1ee294c887a82a6bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 42/78] fix: a module imported globally is analysed in its own
 scope, once, and always defines its names

---
 amanda/compiler/check/core.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d18a7bf..5d35bdc 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -372,6 +372,18 @@ class Analyzer(ast.Visitor):
             self.assert_can_use_ident(self.ctx_node, item)
             self.global_scope.define(item, sym)
 
+    def define_module_names(self, *, imported_mod: Module):
+        mod_symtab: symbols.Scope = imported_mod.ast.symbols
+        for name, sym in mod_symtab.symbols.items():
+            # Every module already has the builtins, and the names that
+            # it has already imported
+            if sym.module is builtin_module or sym is self.global_scope.get(
+                name
+            ):
+                continue
+            self.assert_can_use_ident(self.ctx_node, name)
+            self.global_scope.define(name, sym)
+
     def load_module(
         self,
         module: Module,
@@ -396,8 +408,8 @@ class Analyzer(ast.Visitor):
                         prev_module=self.ctx_module,
                         usa_items=usa_items,
                     )
-                case _:
-                    pass
+                case ast.UsaMode.Global:
+                    self.define_module_names(imported_mod=existing_mod)
             return
 
         # Check for a cycle
@@ -413,12 +425,17 @@ class Analyzer(ast.Visitor):
         self.imports[module.fpath] = module
         # TODO: Handle errors while loading another module
         match mode:
-            case ast.UsaMode.Global:
+            case ast.UsaMode.Global if module is builtin_module:
                 self.visit_module(parse(module.fpath))
+            case ast.UsaMode.Global:
+                imported_mod, _ = self.load_module_scoped(module)
+                self.ctx_module = prev_module
+                self.define_module_names(imported_mod=imported_mod)
             case ast.UsaMode.Scoped:
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
                 imported_mod, _ = self.load_module_scoped(module)
+                self.ctx_module = prev_module
                 self.define_module_alias(
                     alias, importing_mod=prev_module, imported_mod=module
                 )
-- 
2.43.0


From 3fdc5e570631d48db29f6b7eb57ecc4b7558be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 43/78] fix: reject the use of a module as a value

---
 amanda/compiler/check/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 5d35bdc..0789a2e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -877,7 +877,12 @@ class Analyzer(ast.Visitor):
         )
         if not sym:
             self.error(f"o identificador '{name}' não foi declarado")
-        elif not sym.can_evaluate():
+        elif not sym.can_evaluate() or (
+            # A module is not a value
+            sym.type.is_module()
+            and not node.child_of(ast.Get)
+            and not (node.child_of(ast.Assign) and node.parent.left is node)
+        ):
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
         node.eval_type = sym.type
@@ -972,6 +977,8 @@ class Analyzer(ast.Visitor):
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
         )
+        if node.eval_type.is_module() and not node.child_of(ast.Get):
+            self.error(self.INVALID_REF, name=field)
         return field_sym
 
     def visit_set(self, node):
-- 
2.43.0


From 07249ff398dbd6ddc470c0efed1e5568962c9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 44/78] fix: both branches of a 'se iguala' must return for it
 to return

---
 amanda/compiler/check/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0789a2e..3baf960 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -130,7 +130,10 @@ class Analyzer(ast.Visitor):
         'se iguala' statements"""
         # If there is no else branch return None immediately
         return (
-            False if not node.else_branch else self.has_return(node.else_branch)
+            False
+            if not node.else_branch
+            else self.has_return(node.then_branch)
+            and self.has_return(node.else_branch)
         )
 
     def has_return_enquanto(self, node):
-- 
2.43.0


From b1fcb448a3edc9cd7b3b06ee72ce3180c7b92f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 45/78] fix: the errors of a field of a record are on the line
 of the field

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 3baf960..a2a6005 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -765,7 +765,7 @@ class Analyzer(ast.Visitor):
             )
 
         for field in node.fields:
-            self.visit_vardecl(field)
+            self.visit(field)
 
         for symbol in cast(symbols.Scope, self.ctx_scope).symbols.values():
             symbol.is_property = True
-- 
2.43.0


From 9c1b5eab4bea6c6c9543262c04f9932d3aef6d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 46/78] fix: methods and variants with the name of a builtin
 function are not calls of that function

---
 amanda/compiler/check/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index a2a6005..8d1b174 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1296,7 +1296,8 @@ class Analyzer(ast.Visitor):
                 )
                 self.error(message)
 
-        if sym.name in BUILTINS:
+        # Methods and variants can have the name of a builtin
+        if type(sym) is symbols.FunctionSymbol and sym.name in BUILTINS:
             self.builtin_call(BUILTINS[sym.name], node)
         elif isinstance(sym, Registo):
             self.validate_initializer(sym, node.fargs)
-- 
2.43.0


From 02457def365e1b6b2c48704fd8f7ce48fc7c8faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 47/78] fix: an arm of 'iguala' with a literal is tried after
 the arms before it

---
 amanda/compiler/check/exhaustiveness.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 20e4b7c..e6c83cb 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -356,13 +356,15 @@ class IgualaCompiler:
                     raw_cases[index][2].append(row)
                     continue
 
+                # The rows that match any value and come before this one
+                # are tried first
+                earlier_rows = [fallback.clone() for fallback in fallback_rows]
                 tested[key] = len(raw_cases)
-                raw_cases.append((cons, [], [row]))
+                raw_cases.append((cons, [], [*earlier_rows, row]))
             else:
                 fallback_rows.append(row)
-
-        for _, _, rows in raw_cases:
-            rows.extend(row.clone() for row in fallback_rows)
+                for _, _, case_rows in raw_cases:
+                    case_rows.append(row.clone())
 
         cases = list(
             map(
-- 
2.43.0


From 4c9e5f98598bf3685ebe83c7a8b7e5f13654e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 48/78] fix: the errors of an argument are on the line of the
 argument, those of the number of arguments on the line of the call

---
 amanda/compiler/check/core.py  | 4 ++++
 amanda/compiler/check/uniao.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8d1b174..e058c9f 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1422,6 +1422,7 @@ class Analyzer(ast.Visitor):
 
     def validate_call(self, sym: symbols.FunctionSymbol, fargs: List[ast.Expr]):
         name = sym.name
+        call_node = self.ctx_node
         if not sym.is_callable():
             self.error(f"identificador '{name}' não é invocável")
         for arg in fargs:
@@ -1431,6 +1432,7 @@ class Analyzer(ast.Visitor):
                     f"Funções e métodos não suportam argumentos nomeados"
                 )
             self.visit(arg)
+        self.ctx_node = call_node
         self.check_arity(
             len(fargs), name, sym.arity(), sym.is_property, symbol=sym
         )
@@ -1438,6 +1440,7 @@ class Analyzer(ast.Visitor):
         for arg, param in zip(fargs, sym.params.values()):
             arg.prom_type = arg.eval_type.promote_to(param.type)
             if not self.types_match(param.type, arg.eval_type):
+                self.ctx_node = arg
                 self.error(
                     f"argumento inválido. Esperava-se um argumento do tipo '{param.type}' mas recebeu o tipo '{arg.eval_type}'"
                 )
@@ -1458,6 +1461,7 @@ class Analyzer(ast.Visitor):
                 )
             arg_id = arg.name.lexeme
             self.visit(arg)
+            self.ctx_node = arg
             # 2. No unknown named arg in args
             if arg_id not in sym.fields:
                 self.error(
diff --git a/amanda/compiler/check/uniao.py b/amanda/compiler/check/uniao.py
index 3ed96b8..3dc0a6f 100644
--- a/amanda/compiler/check/uniao.py
+++ b/amanda/compiler/check/uniao.py
@@ -64,6 +64,7 @@ def validate_variant_init(
     for i, (arg, param) in enumerate(zip(args, variant.params)):
         arg.prom_type = arg.eval_type.promote_to(param)
         if not checker.types_match(param, arg.eval_type):
+            checker.ctx_node = arg
             checker.error(
                 f"erro no argumento {i + 1}. Esperava-se um argumento do tipo '{param}' mas recebeu o tipo '{arg.eval_type}'"
             )
-- 
2.43.0


From e1af443b982ece3a7455cbc25b613e2a63d35325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 49/78] fix: report an error found after an inner expression on
 the line of its own node

---
 amanda/compiler/check/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index e058c9f..c46f690 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -305,10 +305,15 @@ class Analyzer(ast.Visitor):
         node_class = type(node).__name__.lower()
         method_name = f"visit_{node_class}"
         visitor_method = getattr(self, method_name, self.general_visit)
+        prev_node = self.ctx_node
         self.ctx_node = node
         if node_class == "block":
-            return visitor_method(node, args)
-        return visitor_method(node)
+            result = visitor_method(node, args)
+        else:
+            result = visitor_method(node)
+        # The errors found after this one are errors of the outer node
+        self.ctx_node = prev_node
+        return result
 
     def visit_children(self, children):
         for child in children:
@@ -1199,6 +1204,7 @@ class Analyzer(ast.Visitor):
             case_expr = case.expression
             self.visit(case_expr)
             if not self.types_match(expr_type, case_expr.eval_type):
+                self.ctx_node = case_expr
                 self.error(
                     f"O tipo do valor do caso ({case_expr.eval_type}) deve ser igual ao tipo do valor que está a ser avaliado ({expr_type})"
                 )
-- 
2.43.0


From 7fed45e361d36827df175007816b89c0feae5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 50/78] fix: an escape sequence in a text does not swallow the
 character that follows it

---
 amanda/compiler/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 53c8bde..7cdbc0f 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -168,10 +168,11 @@ class Lexer:
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
                 # the char combination as is
-                is_ctl_seq = False
-                is_ctl_seq |= self.escape_seq("n", result, "\n")
-                is_ctl_seq |= self.escape_seq("'", result, "'")
-                is_ctl_seq |= self.escape_seq('"', result, '"')
+                is_ctl_seq = (
+                    self.escape_seq("n", result, "\n")
+                    or self.escape_seq("'", result, "'")
+                    or self.escape_seq('"', result, '"')
+                )
                 if not is_ctl_seq:
                     result.write("\\")
                     self.advance()
-- 
2.43.0


From c1b94a4ab766db78a3fe3dd964d7685d0a38259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 51/78] fix: input that is not valid UTF-8 is a runtime error

---
 amanda/vm/src/modules/builtins/embutidos.rs | 35 ++++++++-------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 81c30cd..129b29f 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -29,8 +29,9 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     escreva(args, alloc)?;
 
     let mut input = String::from("");
-    //TODO: Propagate possible errors to caller
-    io::stdin().read_line(&mut input).unwrap();
+    if io::stdin().read_line(&mut input).is_err() {
+        return Err("Não foi possível ler o valor introduzido".to_string());
+    }
     //Remove newline at the end
     //(the last line of the input does not have to end with one)
     if input.ends_with('\n') {
@@ -41,32 +42,22 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
 }
 
 fn leia_int<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let input = leia(args, alloc);
-    if input.is_ok() {
-        //TODO: Propagate possible errors to caller
-        let maybe_int = input.unwrap().take_str().parse::<i64>();
-        if let Err(_) = maybe_int {
-            Err("Valor introduzido não é um inteiro válido".to_string())
-        } else {
-            Ok(AmaValue::Int(maybe_int.unwrap()))
-        }
+    let input = leia(args, alloc)?;
+    let maybe_int = input.take_str().parse::<i64>();
+    if let Err(_) = maybe_int {
+        Err("Valor introduzido não é um inteiro válido".to_string())
     } else {
-        unreachable!()
+        Ok(AmaValue::Int(maybe_int.unwrap()))
     }
 }
 
 fn leia_real<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let input = leia(args, alloc);
-    if input.is_ok() {
-        //TODO: Propagate possible errors to caller
-        let maybe_double = input.unwrap().take_str().parse::<f64>();
-        if let Err(_) = maybe_double {
-            Err("Valor introduzido não é um número real válido".to_string())
-        } else {
-            Ok(AmaValue::F64(maybe_double.unwrap()))
-        }
+    let input = leia(args, alloc)?;
+    let maybe_double = input.take_str().parse::<f64>();
+    if let Err(_) = maybe_double {
+        Err("Valor introduzido não é um número real válido".to_string())
     } else {
-        unreachable!()
+        Ok(AmaValue::F64(maybe_double.unwrap()))
     }
 }
 
-- 
2.43.0


From 04ad265ecd904caf02cfa2c0e5f87d097cabfabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 52/78] fix: variables of the expressions of a 'para' do not
 overwrite its control variable

---
 amanda/compiler/check/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c46f690..beafb41 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1237,7 +1237,12 @@ class Analyzer(ast.Visitor):
 
     # TODO: Figure out what to do with this guy
     def visit_para(self, node: ast.Para):
+        # The range is evaluated while the control variable is in use. The
+        # variables of its expressions (e.g. those of 'iguala') must not have
+        # the same id
+        self.scope_depth += 1
         self.visit(node.expression)
+        self.scope_depth -= 1
         # Define control variable for loop
         name = node.expression.name.lexeme
         sym = symbols.VariableSymbol(name, Builtins.Int, self.ctx_module)
-- 
2.43.0


From e864b5e201f59b36f48a985fe2e68ad8c0689e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 53/78] fix: the type given to 'vec' must be the name of a type

---
 amanda/compiler/check/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index beafb41..f59eae5 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1356,7 +1356,10 @@ class Analyzer(ast.Visitor):
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
 
-            type_node = cast(ast.Type, node.fargs[0])
+            type_node = node.fargs[0]
+            # Only the name of a type can be given
+            if not isinstance(type_node, ast.Variable):
+                self.error(f"O tipo de um vector deve ser um tipo simples")
             el_type = self.get_type(type_node)  # Attempt to get type
             # Is arg 1 a vector type?
             if type(el_type) == Vector:
-- 
2.43.0


From a5e7ef820fa16b9932dbe15f844e432662d3584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 54/78] fix: a line can end before the end of a list with one
 element, and after 'alvo('

---
 amanda/compiler/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 7cdbc0f..6975b0e 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -508,7 +508,9 @@ class Parser:
         self.consume(
             TT.ALVO,
             "Primeiro parâmetro de um método deve ser a palavra reservada 'alvo'",
+            skip_newlines=True,
         )
+        self.skip_newlines()
         params = []
         if self.match(TT.COMMA):
             self.consume(TT.COMMA)
@@ -625,6 +627,7 @@ class Parser:
             self.consume(TT.LPAR)
             self.skip_newlines()
             params.append(self.type())
+            self.skip_newlines()
             while self.match(TT.COMMA):
                 self.skip_newlines()
                 self.consume(TT.COMMA)
@@ -677,6 +680,7 @@ class Parser:
             self.consume(TT.COLON, "esperava-se o símbolo ':'.")
             param_type = self.type()
             params.append(ast.Param(param_type, name))
+            self.skip_newlines()
             while not self.match(TT.RPAR):
                 self.consume(TT.COMMA, skip_newlines=True)
                 name = self.consume(TT.IDENTIFIER, skip_newlines=True)
@@ -1306,8 +1310,8 @@ class Parser:
             list_type = self.type()
             elements = []
             self.consume(TT.COLON)
+            self.skip_newlines()
             if not self.match(TT.RBRACKET):
-                self.skip_newlines()
                 elements.append(self.equality())
                 while not self.match(TT.RBRACKET):
                     self.consume(TT.COMMA, skip_newlines=True)
-- 
2.43.0


From f8e98410e88a53c6093a79ec79c3999fcb825489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 55/78] fix: the values of the expressions that are statements
 are discarded

---
 amanda/compiler/codegen.py | 40 ++++++++++++++++++++++++++------------
 amanda/vm/src/opcode.rs    |  4 +++-
 amanda/vm/src/vm.rs        |  3 +++
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 087b74c..72b2fb6 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -122,6 +122,8 @@ class OpCode(Enum):
     BIND_MATCH_ARGS = auto()
     # Checks if the variant at TOS is has the integer tag specified by the 64-bit argument.
     MATCH_VARIANT = auto()
+    # Discards TOS
+    POP = auto()
     # Stops execution of the VM. Must always be added to stop execution of the vm
     HALT = 0xFF
 
@@ -130,7 +132,7 @@ class OpCode(Enum):
         # uses
         num_ops = len(list(OpCode))
         assert (
-            num_ops == 43
+            num_ops == 44
         ), f"Please update the size of ops after adding a new Op. New size: {num_ops}"
         match self:
             case (
@@ -438,16 +440,30 @@ class ByteGen:
         self.scope_symtab = self.scope_symtab.enclosing_scope
         num_locals = len(self.func_locals)
 
+    def leaves_value(self, node: ast.ASTNode) -> bool:
+        match node:
+            case ast.Assign() | ast.Set() | ast.IndexSet():
+                return False
+            case ast.Iguala():
+                return node.eval_type != Builtins.Vazio
+            case _:
+                return isinstance(node, ast.Expr)
+
+    def gen_statements(self, statements: Sequence[ast.ASTNode]):
+        for statement in statements:
+            self.gen(statement)
+            # The value of an expression is not used when it is a statement
+            if self.leaves_value(statement):
+                self.append_op(OpCode.POP)
+
     def compile_block(self, node):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_statements(node.children)
         self.exit_block()
 
     def gen_yieldblock(self, node: ast.YieldBlock):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_statements(node.children)
         self.exit_block()
 
     def get_variant_index(self, variant: Variant) -> int:
@@ -755,8 +771,7 @@ class ByteGen:
         self.gen(node.condition)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Block
-        for child in block.children:
-            self.gen(child)
+        self.gen_statements(block.children)
         self.append_op(OpCode.JUMP, loop)
         # END LOOP
         self.patch_label_loc(after_loop)
@@ -799,8 +814,7 @@ class ByteGen:
         self.append_op(OpCode.OP_LESS)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Body
-        for child in block.children:
-            self.gen(child)
+        self.gen_statements(block.children)
         # update: control_var += inc
         self.patch_label_loc(update)
         if not range_expr.inc:
@@ -935,8 +949,7 @@ class ByteGen:
 
         if not func_symbol.is_builtin():
             self.enter_block(block.symbols)
-            for child in block.children:
-                self.gen(child)
+            self.gen_statements(block.children)
             self.exit_block()
 
         # default return
@@ -986,7 +999,10 @@ class ByteGen:
         self.append_op(OpCode.RETURN)
 
     def gen_produz(self, node: ast.Produz):
-        self.gen(unwrap(node.exp))
+        exp = unwrap(node.exp)
+        self.gen(exp)
+        if exp.eval_type == Builtins.Vazio and self.leaves_value(exp):
+            self.append_op(OpCode.POP)
 
     def gen_converta(self, node: ast.Converta):
         target_t = node.target.eval_type
diff --git a/amanda/vm/src/opcode.rs b/amanda/vm/src/opcode.rs
index 7bb0f8d..2d6e9bc 100644
--- a/amanda/vm/src/opcode.rs
+++ b/amanda/vm/src/opcode.rs
@@ -45,12 +45,13 @@ pub enum OpCode {
     BuildVariant,
     BindMatchArgs,
     MatchVariant,
+    Pop,
     Halt = 255,
 }
 
 impl From<&u8> for OpCode {
     fn from(number: &u8) -> Self {
-        let ops: [OpCode; 42] = [
+        let ops: [OpCode; 43] = [
             OpCode::Mostra,
             OpCode::LoadConst,
             OpCode::LoadName,
@@ -93,6 +94,7 @@ impl From<&u8> for OpCode {
             OpCode::BuildVariant,
             OpCode::BindMatchArgs,
             OpCode::MatchVariant,
+            OpCode::Pop,
         ];
         if *number == 0xff {
             OpCode::Halt
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 3cbbb6a..fbab415 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -212,6 +212,9 @@ impl<'a> AmaVM<'a> {
                     self.op_push(AmaValue::Registo(&self.ctx_module.unwrap().registos[idx]))
                 }
                 OpCode::Mostra => println!("{}", self.op_pop()),
+                OpCode::Pop => {
+                    self.op_pop();
+                }
                 //Binary Operations
                 OpCode::OpAdd
                 | OpCode::OpMinus
-- 
2.43.0


From c3f29bbf8f9aa3adbf5d5dbeede53dd552c9811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 56/78] fix: a type path that begins with the name of a type is
 reported

---
 amanda/compiler/check/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f59eae5..b6210a5 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -211,7 +211,9 @@ class Analyzer(ast.Visitor):
 
     def get_mod_or_err(self, scope: symbols.Scope, mod_id: str) -> ModuleTy:
         mod = scope.resolve_typed(mod_id)
-        if not mod or not isinstance(mod.type, ModuleTy):
+        if not isinstance(mod, symbols.Typed) or not isinstance(
+            mod.type, ModuleTy
+        ):
             self.error(
                 f"Especificação de tipo inválida. O identificador '{mod_id}' não foi reconhecido como um módulo"
             )
-- 
2.43.0


From 9d30e0104a20a3ed41df96da2c75c2fc2fa24895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 57/78] fix: a function, method or variant that is an argument
 must be called

---
 amanda/compiler/ast.py        |  3 +++
 amanda/compiler/check/core.py | 14 ++------------
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 7c9aa0e..4fc8f52 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -71,6 +71,9 @@ class ASTNode:
         assert self.parent, "parent should not be none"
         return isinstance(self.parent, ty)
 
+    def is_callee(self) -> bool:
+        return isinstance(self.parent, Call) and self.parent.callee is self
+
     def of_type(self, ty: PyTy[T]) -> TypeGuard[T]:
         return isinstance(self, ty)
 
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index b6210a5..7a01aa2 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -926,7 +926,7 @@ class Analyzer(ast.Visitor):
         # If variant not referenced in the context of a call
         # and it has params, error out
         if (
-            not node.child_of(ast.Call)
+            not node.is_callee()
             and isinstance(current_sym, Variant)
             and len(current_sym.params) > 0
             and not node.child_of(ast.ADTPattern)
@@ -972,17 +972,7 @@ class Analyzer(ast.Visitor):
         # Check if valid use of get
         # References to methods can only be used in the context of
         # a call expression
-        in_eval_ctx = (
-            node.child_of(ast.Expr)
-            or node.child_of(ast.Set)
-            or node.child_of(ast.Assign)
-            or node.child_of(ast.Statement)
-        )
-        if (
-            in_eval_ctx
-            and not node.child_of(ast.Call)
-            and not field_sym.can_evaluate()
-        ):
+        if not field_sym.can_evaluate() and not node.is_callee():
             self.error(self.INVALID_REF, name=field_sym.name)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
-- 
2.43.0


From be921c4fa3039e2311edf1ce4a758493bbefd4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 58/78] fix: vec reports that there is not enough memory for a
 vector

---
 amanda/vm/src/modules/builtins/embutidos.rs | 44 ++++++++++++---------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 129b29f..058fdae 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -2,6 +2,7 @@ use super::utils::exports;
 use super::AmaResult;
 use crate::alloc::Alloc;
 use crate::ama_value::AmaValue;
+use crate::errors::AmaErr;
 use crate::values::amatype::Type;
 use crate::values::function::{FuncArgs, NativeFunc};
 use std::borrow::Cow;
@@ -83,6 +84,16 @@ fn txt_contem<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a
     }
 }
 
+fn alloc_elements<'a>(size: usize) -> Result<Vec<AmaValue<'a>>, AmaErr> {
+    let mut elements = Vec::new();
+    match elements.try_reserve_exact(size) {
+        Ok(()) => Ok(elements),
+        Err(_) => Err(String::from(
+            "Não há memória suficiente para criar o vector",
+        )),
+    }
+}
+
 //TODO: Maybe optimize this
 fn build_vec<'a>(
     dim: usize,
@@ -90,29 +101,26 @@ fn build_vec<'a>(
     dims: &[AmaValue],
     el_type: Type,
     alloc: &mut Alloc<'a>,
-) -> Vec<AmaValue<'a>> {
+) -> Result<Vec<AmaValue<'a>>, AmaErr> {
     let size = dims[dim].take_int() as usize;
+    let mut elements = alloc_elements(size)?;
     if dim == n_dims {
-        match el_type {
-            Type::Int => vec![AmaValue::Int(0); size as usize],
-            Type::Real => vec![AmaValue::F64(0.0); size],
-            Type::Bool => vec![AmaValue::Bool(false); size],
-            Type::Texto => vec![AmaValue::Str(Cow::Owned(String::new())); size],
+        let default = match el_type {
+            Type::Int => AmaValue::Int(0),
+            Type::Real => AmaValue::F64(0.0),
+            Type::Bool => AmaValue::Bool(false),
+            Type::Texto => AmaValue::Str(Cow::Owned(String::new())),
             _ => unreachable!("Only primitives types should have this"),
-        }
+        };
+        elements.resize(size, default);
     } else {
-        if size == 0 {
-            Vec::with_capacity(0)
-        } else {
-            //Each element must be a new vector, not a reference to a shared one
-            let mut container = Vec::with_capacity(size);
-            for _ in 0..size {
-                let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-                container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
-            }
-            container
+        //Each element must be a new vector, not a reference to a shared one
+        for _ in 0..size {
+            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc)?;
+            elements.push(AmaValue::Vector(alloc.alloc_ref(inner)));
         }
     }
+    Ok(elements)
 }
 
 fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
@@ -127,7 +135,7 @@ fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
             ));
         }
     }
-    let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc);
+    let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc)?;
     let vec = AmaValue::Vector(alloc.alloc_ref(built_vec));
     Ok(vec)
 }
-- 
2.43.0


From 08d457c3c754bd0bfd6b0ac9fef02a0db4758edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 59/78] fix: long chains of values are released, compared and
 shown without recursion

---
 amanda/vm/src/ama_value.rs      | 139 ++++++++++++++++++++++++--------
 amanda/vm/src/lib.rs            |   7 +-
 amanda/vm/src/values/registo.rs |   4 +
 amanda/vm/src/vm.rs             |   2 +-
 4 files changed, 115 insertions(+), 37 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 79f8bf0..750ea96 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -4,6 +4,7 @@ use crate::opcode::OpCode;
 use crate::values::amatype::Type;
 use crate::values::function::{AmaFunc, NativeFunc};
 use crate::values::registo::{RegObj, Registo};
+use rustc_hash::FxHashSet;
 use std::borrow::Cow;
 use std::cell::RefCell;
 use std::convert::From;
@@ -171,27 +172,35 @@ impl<'a> AmaValue<'a> {
     // Records and vectors are references, so they are only equal to themselves.
     // Values of different kinds are never equal.
     fn equals(left: &Self, right: &Self) -> bool {
-        match (left, right) {
-            (AmaValue::None, AmaValue::None) => true,
-            (AmaValue::Int(left), AmaValue::Int(right)) => left == right,
-            (AmaValue::Int(_), AmaValue::F64(_))
-            | (AmaValue::F64(_), AmaValue::Int(_))
-            | (AmaValue::F64(_), AmaValue::F64(_)) => left.take_float() == right.take_float(),
-            (AmaValue::Bool(left), AmaValue::Bool(right)) => left == right,
-            (AmaValue::Str(left), AmaValue::Str(right)) => left == right,
-            (AmaValue::Vector(left), AmaValue::Vector(right)) => Rc::ptr_eq(left, right),
-            (AmaValue::RegObj(left), AmaValue::RegObj(right)) => Rc::ptr_eq(left, right),
-            (AmaValue::Variant(left, left_args), AmaValue::Variant(right, right_args)) => {
-                left == right
-                    && match (left_args, right_args) {
-                        (Some(left), Some(right)) => left
-                            .iter()
-                            .zip(right.iter())
-                            .all(|(left, right)| Self::equals(left, right)),
-                        _ => true,
+        let (mut left, mut right) = (left, right);
+        // Variants can be nested too deeply to be compared recursively
+        let mut pending = Vec::new();
+        loop {
+            let equal = match (left, right) {
+                (AmaValue::None, AmaValue::None) => true,
+                (AmaValue::Int(left), AmaValue::Int(right)) => left == right,
+                (AmaValue::Int(_), AmaValue::F64(_))
+                | (AmaValue::F64(_), AmaValue::Int(_))
+                | (AmaValue::F64(_), AmaValue::F64(_)) => left.take_float() == right.take_float(),
+                (AmaValue::Bool(left), AmaValue::Bool(right)) => left == right,
+                (AmaValue::Str(left), AmaValue::Str(right)) => left == right,
+                (AmaValue::Vector(left), AmaValue::Vector(right)) => Rc::ptr_eq(left, right),
+                (AmaValue::RegObj(left), AmaValue::RegObj(right)) => Rc::ptr_eq(left, right),
+                (AmaValue::Variant(left, left_args), AmaValue::Variant(right, right_args)) => {
+                    if let (Some(left), Some(right)) = (left_args, right_args) {
+                        pending.extend(left.iter().zip(right.iter()));
                     }
+                    left == right
+                }
+                _ => false,
+            };
+            if !equal {
+                return false;
+            }
+            match pending.pop() {
+                Some(pair) => (left, right) = pair,
+                None => return true,
             }
-            _ => false,
         }
     }
 
@@ -274,6 +283,83 @@ impl Clone for AmaValue<'_> {
     }
 }
 
+impl<'a> AmaValue<'a> {
+    // Moves the values that only this one refers to into 'pending'
+    fn release(&mut self, pending: &mut Vec<AmaValue<'a>>) {
+        match self {
+            AmaValue::Vector(vec) => {
+                if let Some(vec) = Rc::get_mut(vec) {
+                    pending.append(vec.get_mut());
+                }
+            }
+            AmaValue::RegObj(obj) => {
+                if let Some(obj) = Rc::get_mut(obj) {
+                    obj.get_mut().release(pending);
+                }
+            }
+            AmaValue::Variant(_, Some(args)) => {
+                if let Some(args) = Rc::get_mut(args) {
+                    pending.append(args);
+                }
+            }
+            _ => (),
+        }
+    }
+}
+
+// Long chains of values can't be dropped recursively
+impl Drop for AmaValue<'_> {
+    fn drop(&mut self) {
+        if let AmaValue::Vector(_) | AmaValue::RegObj(_) | AmaValue::Variant(_, Some(_)) = self {
+            let mut pending = Vec::new();
+            self.release(&mut pending);
+            while let Some(mut value) = pending.pop() {
+                value.release(&mut pending);
+            }
+        }
+    }
+}
+
+// Vectors can be nested too deeply for recursion, and can contain themselves
+fn fmt_vector<'a>(vec: &RcCell<Vec<AmaValue<'a>>>, f: &mut Formatter<'_>) -> fmt::Result {
+    let mut vec = Rc::clone(vec);
+    let mut next = 0;
+    let mut outer = Vec::new();
+    let mut open = FxHashSet::default();
+    open.insert(Rc::as_ptr(&vec));
+    write!(f, "[")?;
+    loop {
+        let element = vec.borrow().get(next).cloned();
+        match element {
+            None => {
+                write!(f, "]")?;
+                open.remove(&Rc::as_ptr(&vec));
+                match outer.pop() {
+                    Some(place) => (vec, next) = place,
+                    None => return Ok(()),
+                }
+                continue;
+            }
+            Some(_) if next > 0 => write!(f, ", ")?,
+            _ => (),
+        }
+        next += 1;
+        match element {
+            Some(AmaValue::Vector(ref inner)) => {
+                if open.insert(Rc::as_ptr(inner)) {
+                    write!(f, "[")?;
+                    outer.push((std::mem::replace(&mut vec, Rc::clone(inner)), next));
+                    next = 0;
+                } else {
+                    write!(f, "[...]")?;
+                }
+            }
+            Some(ref element) => write!(f, "{}", element)?,
+            None => (),
+        }
+    }
+}
+
 impl Display for AmaValue<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         match self {
@@ -289,20 +375,7 @@ impl Display for AmaValue<'_> {
                 let val_str = if *val { "verdadeiro" } else { "falso" };
                 write!(f, "{}", val_str)
             }
-            AmaValue::Vector(vec) => {
-                let vec = vec.borrow();
-                let mut res = String::new();
-                write!(res, "[").unwrap();
-                vec.iter().enumerate().for_each(|(i, val)| {
-                    if i == vec.len() - 1 {
-                        write!(res, "{}", val).unwrap();
-                        return;
-                    }
-                    write!(res, "{}, ", val).unwrap();
-                });
-                write!(res, "]").unwrap();
-                write!(f, "{}", res)
-            }
+            AmaValue::Vector(vec) => fmt_vector(vec, f),
             AmaValue::None => write!(f, "nulo"),
             AmaValue::RegObj(reg) => {
                 write!(f, "<Instância do tipo {}>", reg.borrow().reg_name())
diff --git a/amanda/vm/src/lib.rs b/amanda/vm/src/lib.rs
index 807d667..d9cab4d 100644
--- a/amanda/vm/src/lib.rs
+++ b/amanda/vm/src/lib.rs
@@ -23,10 +23,11 @@ pub extern "C" fn run_module(bin_module: *mut u8, size: u32) -> u8 {
     };
 
     let alloc = Alloc::new();
-    let (main_module, imports) = binload::load_bin(module);
+    // The values of the globals refer to the modules
+    let (main_module, imports) = Box::leak(Box::new(binload::load_bin(module)));
 
-    let mut vm = AmaVM::new(&main_module, &imports, alloc);
-    if let Err(err) = vm.run(&main_module) {
+    let mut vm = AmaVM::new(main_module, imports, alloc);
+    if let Err(err) = vm.run(main_module) {
         eprint!("{}", err);
         ERR
     } else {
diff --git a/amanda/vm/src/values/registo.rs b/amanda/vm/src/values/registo.rs
index 3c44303..749f158 100644
--- a/amanda/vm/src/values/registo.rs
+++ b/amanda/vm/src/values/registo.rs
@@ -54,6 +54,10 @@ impl<'a> RegObj<'a> {
         self.state.insert(field, value);
     }
 
+    pub fn release(&mut self, values: &mut Vec<AmaValue<'a>>) {
+        values.extend(self.state.drain().map(|(_, value)| value));
+    }
+
     pub fn reg_name(&self) -> &str {
         self.registo.name
     }
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index fbab415..9c25966 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -493,7 +493,7 @@ impl<'a> AmaVM<'a> {
                     let local_indices: Vec<_> = self.values.drain(start..= self.sp as usize).map(|val| val.take_int()).into_iter().collect();
                     self.sp = (start - 1) as isize;
                     let object = self.op_pop();
-                    match object {
+                    match &object {
                         AmaValue::Variant(_, Some(args)) => {
                             for (i, local_idx) in local_indices.iter().enumerate() {
                                 let idx = self.frames.peek().bp as usize + *local_idx as usize;
-- 
2.43.0


From 09162577fbb4826cd29d6dfe5c2b5a1ea94c53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 60/78] fix: a failure to write the output is a runtime error

---
 amanda/vm/src/lib.rs                        |  5 ++++-
 amanda/vm/src/modules/builtins/embutidos.rs |  8 +++-----
 amanda/vm/src/modules/builtins/mod.rs       | 11 +++++++++++
 amanda/vm/src/vm.rs                         |  7 ++++++-
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/amanda/vm/src/lib.rs b/amanda/vm/src/lib.rs
index d9cab4d..c3044f7 100644
--- a/amanda/vm/src/lib.rs
+++ b/amanda/vm/src/lib.rs
@@ -1,4 +1,6 @@
 use alloc::Alloc;
+use std::io;
+use std::io::Write;
 use std::slice;
 use vm::AmaVM;
 
@@ -28,7 +30,8 @@ pub extern "C" fn run_module(bin_module: *mut u8, size: u32) -> u8 {
 
     let mut vm = AmaVM::new(main_module, imports, alloc);
     if let Err(err) = vm.run(main_module) {
-        eprint!("{}", err);
+        // There is nowhere else to report the error
+        let _ = write!(io::stderr(), "{}", err);
         ERR
     } else {
         OK
diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 058fdae..ee844aa 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -1,5 +1,5 @@
 use super::utils::exports;
-use super::AmaResult;
+use super::{write_output, AmaResult};
 use crate::alloc::Alloc;
 use crate::ama_value::AmaValue;
 use crate::errors::AmaErr;
@@ -7,22 +7,20 @@ use crate::values::amatype::Type;
 use crate::values::function::{FuncArgs, NativeFunc};
 use std::borrow::Cow;
 use std::io;
-use std::io::Write;
 use unicode_segmentation::UnicodeSegmentation;
 
 /* Builtin functions*/
 fn escrevaln<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     let value = &args[0];
 
-    println!("{}", value);
+    write_output(format_args!("{}\n", value))?;
     Ok(AmaValue::None)
 }
 
 fn escreva<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     let value = &args[0];
 
-    print!("{}", value);
-    io::stdout().flush().unwrap();
+    write_output(format_args!("{}", value))?;
     Ok(AmaValue::None)
 }
 
diff --git a/amanda/vm/src/modules/builtins/mod.rs b/amanda/vm/src/modules/builtins/mod.rs
index b0ffa4c..ca45891 100644
--- a/amanda/vm/src/modules/builtins/mod.rs
+++ b/amanda/vm/src/modules/builtins/mod.rs
@@ -1,5 +1,8 @@
 use crate::ama_value::AmaValue;
 use crate::errors::AmaErr;
+use std::fmt::Arguments;
+use std::io;
+use std::io::Write;
 mod embutidos;
 mod mat;
 mod utils;
@@ -13,3 +16,11 @@ utils::builtin_defs! {
     embutidos,
     mat
 }
+
+pub(crate) fn write_output(text: Arguments) -> Result<(), AmaErr> {
+    let mut output = io::stdout();
+    match output.write_fmt(text).and_then(|()| output.flush()) {
+        Ok(()) => Ok(()),
+        Err(_) => Err("Não foi possível escrever na saída do programa".to_string()),
+    }
+}
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 9c25966..78ccc04 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -211,7 +211,12 @@ impl<'a> AmaVM<'a> {
                     let idx = self.get_u16_arg() as usize;
                     self.op_push(AmaValue::Registo(&self.ctx_module.unwrap().registos[idx]))
                 }
-                OpCode::Mostra => println!("{}", self.op_pop()),
+                OpCode::Mostra => {
+                    let value = self.op_pop();
+                    if let Err(msg) = builtins::write_output(format_args!("{}\n", value)) {
+                        return self.panic_and_throw(&msg);
+                    }
+                }
                 OpCode::Pop => {
                     self.op_pop();
                 }
-- 
2.43.0


From dd2e9e21d9df8b90bc382d45598a3c4560f3a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 61/78] fix: the debug file is always UTF-8, and a failure to
 write it is reported

---
 amanda/__main__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 8258a1c..dc77255 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -19,8 +19,11 @@ sys.setrecursionlimit(20_000)
 
 
 def write_file(name, code):
-    with open(name, "w") as output:
-        output.write(code)
+    try:
+        with open(name, "w", encoding="utf-8") as output:
+            output.write(code)
+    except OSError:
+        sys.exit(f"The file '{path.abspath(name)}' could not be written")
 
 
 def compile_file(filename) -> tuple[ByteGen, bytes]:
-- 
2.43.0


From 11e142b8027ce8af22c1c4ade62069b03d036758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 62/78] fix: names of files that are not valid UTF-8 do not
 crash the compiler

---
 amanda/compiler/bindump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/bindump.py b/amanda/compiler/bindump.py
index 3088c3c..2d0c07b 100644
--- a/amanda/compiler/bindump.py
+++ b/amanda/compiler/bindump.py
@@ -47,7 +47,8 @@ def dumps(data: Dict[str, Any]) -> bytes:
                 e_list, b"\x01", key.encode(), b"\x00", into_bson_f64(value)
             )
         elif val_t == str:
-            str_bytes = value.encode()
+            # The name of a file may have bytes that are not valid in UTF-8
+            str_bytes = value.encode(errors="backslashreplace")
             str_len = bson_int32_len(str_bytes)
             dump_value(
                 e_list,
@@ -55,7 +56,7 @@ def dumps(data: Dict[str, Any]) -> bytes:
                 key.encode(),
                 b"\x00",
                 str_len,
-                value.encode(),
+                str_bytes,
                 b"\x00",
             )
         elif val_t == dict:
-- 
2.43.0


From 389099def75b72afcc85890bd77d3b4bae81a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 63/78] fix: type arguments given to a union are rejected with
 a diagnostic

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7a01aa2..847474a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -245,6 +245,10 @@ class Analyzer(ast.Visitor):
                 )
             ):
                 return reg
+            if isinstance(type_symbol, Uniao):
+                self.error(
+                    f"A união '{type_symbol}' ainda não pode receber argumentos de tipo genérico."
+                )
             return reg.bind(**generic_args)
         return cast(Type, type_symbol)
 
-- 
2.43.0


From d6600f144635df41e6a82586e357c13b8f9e5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 64/78] fix: native functions that nothing implements are
 rejected with a diagnostic

---
 amanda/compiler/check/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 847474a..88d3790 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -627,12 +627,12 @@ class Analyzer(ast.Visitor):
         )
         symbol.set_annotations(node.annotations)
         scope, _ = self.make_func_symbol(name, node, symbol)
-        # Native functions don't have a body, so there's nothing to visit
         node.symbol = symbol
+        # Builtin functions don't have a body, so there's nothing to visit
         if symbol.is_builtin():
             return
         if node.is_native:
-            return
+            self.error(f"a função nativa '{name}' não possui implementação")
         self.validate_return(
             node,
             function_type,
-- 
2.43.0


From dba6d302a75b2d0230ce9d9400be0c817c4fe0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 65/78] fix: the arguments of an optional generic type are not
 ignored

---
 amanda/compiler/check/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 88d3790..2ea9922 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -220,8 +220,10 @@ class Analyzer(ast.Visitor):
         return mod.type
 
     def construct_ty(self, type_node: ast.Type, type_symbol: Type) -> Type:
-        if type_node.maybe_ty:
-            return SrcBuiltins.Opcao.bind(T=type_symbol)
+        ty = self.bind_generic_args(type_node, type_symbol)
+        return SrcBuiltins.Opcao.bind(T=ty) if type_node.maybe_ty else ty
+
+    def bind_generic_args(self, type_node: ast.Type, type_symbol: Type) -> Type:
         if type_node.generic_args and len(type_node.generic_args):
             generic_args = type_node.generic_args
             # Sort out generics
-- 
2.43.0


From 25089bb9ef61ea120053dce2bdd4c380d4f8c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 66/78] fix: only optional types are made from other types

---
 amanda/compiler/types/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 786bfad..4c3b710 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -637,10 +637,8 @@ class ConstructedTy(Type):
         )
 
     def promotion_from(self, other: Type) -> Type | None:
-        # If not of type Talvez, return
-        if not isinstance(other, Primitive) and self.generic_ty.name != str(
-            Types.TOpcao
-        ):
+        # Only an option can be made from another type
+        if not self._is_opcao():
             return None
 
         inner_ty = self.bound_ty_args["T"]
-- 
2.43.0


From 096c6acc202ad96b47d67e8a19d1a786f7ce681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 67/78] fix: methods of vectors and of type parameters are
 rejected with a diagnostic

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 2ea9922..c3d719f 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -673,6 +673,10 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Métodos não podem ser declarados para o tipo '{target_ty}', apenas para o tipo genérico '{target_ty.generic_ty}'"
             )
+        if isinstance(target_ty, (Vector, TypeVar)):
+            self.error(
+                f"Métodos não podem ser declarados para o tipo '{target_ty}'"
+            )
         method_name = node.name.lexeme
         method_id = target_ty.full_field_path(method_name)
         method_desc = f"O método '{method_name}' do tipo '{target_ty}'"
-- 
2.43.0


From e1eaca2872e4202d42cdb2c8e1a6ad9fb5c634ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:25 +0000
Subject: [PATCH 68/78] fix: keep apart the methods of types with the same name
 of different modules

---
 amanda/compiler/check/core.py    | 15 ++++++++++++++-
 amanda/compiler/codegen.py       | 10 +++++++---
 amanda/compiler/symbols/core.py  |  4 +++-
 amanda/vm/src/binload.rs         |  7 +++++--
 amanda/vm/src/modules/module.rs  |  2 +-
 amanda/vm/src/values/function.rs |  2 ++
 6 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c3d719f..4211708 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -561,6 +561,18 @@ class Analyzer(ast.Visitor):
         if self.ctx_scope.get(name):
             self.error(id_in_use_err, name=name)
 
+    def get_method_id(self, target_ty: Type, method_name: str) -> str:
+        """Id of a method in the scope of its module. Types of different
+        modules may have the same name."""
+        name = target_ty.full_field_path(method_name)
+        method_id, count = name, 1
+        while symbol := self.ctx_scope.get(method_id):
+            if symbol.target_ty is target_ty:
+                break
+            count += 1
+            method_id = f"{name}#{count}"
+        return method_id
+
     def validate_num_params(self, node: ast.FunctionDecl):
         # Check that func is within max param number
         is_method = node.of_type(ast.MethodDecl)
@@ -678,7 +690,7 @@ class Analyzer(ast.Visitor):
                 f"Métodos não podem ser declarados para o tipo '{target_ty}'"
             )
         method_name = node.name.lexeme
-        method_id = target_ty.full_field_path(method_name)
+        method_id = self.get_method_id(target_ty, method_name)
         method_desc = f"O método '{method_name}' do tipo '{target_ty}'"
 
         # Check if field exists on target type
@@ -704,6 +716,7 @@ class Analyzer(ast.Visitor):
             return_ty=return_ty,
             module=self.ctx_module,
         )
+        symbol.out_id = method_id
         symbol.set_annotations(node.annotations)
 
         scope, params = self.make_func_symbol(method_id, node, symbol)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 72b2fb6..cf487f7 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -499,7 +499,7 @@ class ByteGen:
         """Name of a symbol in the globals of its module. Methods of different
         types may have the same name."""
         if isinstance(symbol, symbols.MethodSym):
-            return symbol.target_ty.full_field_path(symbol.name)
+            return symbol.out_id
         return symbol.name
 
     def load_variable(self, symbol: Symbol):
@@ -931,8 +931,11 @@ class ByteGen:
     def gen_functiondecl(self, node: ast.FunctionDecl):
         func_symbol = node.symbol
 
-        name = self.global_name(func_symbol)
-        name_idx = self.get_table_index(name, self.NAME_TABLE)
+        name = func_symbol.name
+        if isinstance(func_symbol, symbols.MethodSym):
+            name = func_symbol.target_ty.full_field_path(name)
+        func_id = self.global_name(func_symbol)
+        name_idx = self.get_table_index(func_id, self.NAME_TABLE)
         func_end = self.new_label()
         self.append_op(OpCode.JUMP, func_end)
         func_start = self.new_label()
@@ -962,6 +965,7 @@ class ByteGen:
         # TODO: use uint64 for ip and locals
         self.funcs.append(
             {
+                "id": func_id,
                 "name": name,
                 "start_ip": self.labels[func_start],
                 "locals": num_locals,
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index b654512..53ab2e2 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -102,13 +102,15 @@ class MethodSym(FunctionSymbol):
 
     def bind(self, **ty_args: Type) -> Typed:
         new_fn = cast(FunctionSymbol, super().bind(**ty_args))
-        return MethodSym(
+        method = MethodSym(
             self.name,
             target_ty=self.target_ty,
             return_ty=new_fn.type,
             module=self.module,
             params=new_fn.params,
         )
+        method.out_id = self.out_id
+        return method
 
 
 class Scope:
diff --git a/amanda/vm/src/binload.rs b/amanda/vm/src/binload.rs
index 731a84f..a93eaff 100644
--- a/amanda/vm/src/binload.rs
+++ b/amanda/vm/src/binload.rs
@@ -194,12 +194,13 @@ macro_rules! bson_take {
     };
 }
 
-fn doc_into_amafn<'a>(doc: BSONType) -> (String, usize, usize, FuncModule) {
+fn doc_into_amafn<'a>(doc: BSONType) -> (String, String, usize, usize, FuncModule) {
     if let BSONType::Doc(mut func) = doc {
         let start_ip = bson_take!(BSONType::Int, func.remove("start_ip").unwrap()) as usize;
         let module = bson_take!(BSONType::Int, func.remove("module").unwrap()) as isize;
 
         (
+            bson_take!(BSONType::String, func.remove("id").unwrap()),
             bson_take!(BSONType::String, func.remove("name").unwrap()),
             start_ip,
             bson_take!(BSONType::Int, func.remove("locals").unwrap()) as usize,
@@ -280,9 +281,10 @@ fn build_module<'bin>(mut prog_data: HashMap<String, BSONType>) -> Module<'bin>
             funcs
                 .into_iter()
                 .map(|func| {
-                    let (name, start_ip, locals, module) = doc_into_amafn(func);
+                    let (id, name, start_ip, locals, module) = doc_into_amafn(func);
                     AmaFunc {
                         //TODO: Check if i should be leaking memory
+                        id: Box::leak(id.into_boxed_str()),
                         name: Box::leak(name.into_boxed_str()),
                         bp: -1,
                         start_ip,
@@ -330,6 +332,7 @@ fn build_module<'bin>(mut prog_data: HashMap<String, BSONType>) -> Module<'bin>
         code: ops,
         src_map,
         main: AmaFunc {
+            id: "_inicio_",
             name: "_inicio_",
             bp: -1,
             start_ip: 0,
diff --git a/amanda/vm/src/modules/module.rs b/amanda/vm/src/modules/module.rs
index 83be261..9a072a8 100644
--- a/amanda/vm/src/modules/module.rs
+++ b/amanda/vm/src/modules/module.rs
@@ -37,7 +37,7 @@ impl<'a> Module<'a> {
             for func in self.functions.iter() {
                 self.globals
                     .borrow_mut()
-                    .insert(func.name, AmaValue::Func(*func));
+                    .insert(func.id, AmaValue::Func(*func));
             }
         }
     }
diff --git a/amanda/vm/src/values/function.rs b/amanda/vm/src/values/function.rs
index 9d4689b..6eb64ee 100644
--- a/amanda/vm/src/values/function.rs
+++ b/amanda/vm/src/values/function.rs
@@ -29,6 +29,8 @@ pub enum FuncModule {
 
 #[derive(Debug, Clone, Copy)]
 pub struct AmaFunc<'a> {
+    /// Name of the function in the globals of its module
+    pub id: &'a str,
     pub name: &'a str,
     pub start_ip: usize,
     pub ip: usize,
-- 
2.43.0


From a181d764dc5c5280e589f8e0f5a4bfedf1189aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 69/78] fix: recognise the same text in patterns with different
 delimiters

---
 amanda/compiler/check/exhaustiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index e6c83cb..7ec29bd 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -346,7 +346,8 @@ class IgualaCompiler:
                         cons = IntCons(num)
                     case ast.StrPattern(val):
                         val = val.lexeme
-                        key = val
+                        # The same text can be written with other delimiters
+                        key = val[1:-1]
                         cons = StrCons(val)
                     case _:
                         raise NotImplementedError("Invalid pattern")
-- 
2.43.0


From 93e8bf07d692d780b3ba2ae6ab3e21e33fa13f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 70/78] fix: end the program at once when it is interrupted
 with Ctrl-C

---
 amanda/__main__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index dc77255..cf4a7c2 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -1,4 +1,5 @@
 import argparse
+import signal
 import time
 from io import StringIO
 import os
@@ -52,6 +53,11 @@ def run_file(args):
     if args.debug:
         write_file("debug.amasm", compiler.make_debug_asm())
 
+    # Python only handles an interruption between its own instructions, and the
+    # program runs inside of one: Ctrl-C has to end the process by itself
+    if signal.getsignal(signal.SIGINT) is signal.default_int_handler:
+        signal.signal(signal.SIGINT, signal.SIG_DFL)
+
     exit_code = run_module(bin_obj)
     if exit_code != 0:
         sys.exit(exit_code)
-- 
2.43.0


From 732966bd493ac73aa7a2de17d3ac6128f126101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 71/78] fix: report the access to the value of an optional on
 its own line

---
 amanda/compiler/ast.py       |  6 ++++--
 amanda/compiler/transform.py | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 4fc8f52..252521d 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -471,8 +471,10 @@ class Set(Expr):
 
 
 class Unwrap(Expr):
-    def __init__(self, *, option: Expr, default_val: Expr | None):
-        super().__init__(option.token)
+    def __init__(
+        self, *, token: Token, option: Expr, default_val: Expr | None
+    ):
+        super().__init__(token)
         self.option = option
         self.default_val = default_val
 
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index be2c858..75bd5f7 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -89,7 +89,11 @@ class ASTTransformer:
             and self._is_option(callee.target.eval_type)
             and callee.member.lexeme == "valor_ou"
         ):
-            return ast.Unwrap(option=callee.target, default_val=node.fargs[0])
+            return ast.Unwrap(
+                token=callee.token,
+                option=callee.target,
+                default_val=node.fargs[0],
+            )
 
         var: ast.Variable
         if isinstance(node.symbol, MethodSym):
@@ -115,7 +119,9 @@ class ASTTransformer:
             return var
         else:
             return (
-                ast.Unwrap(option=node.target, default_val=None)
+                ast.Unwrap(
+                    token=node.token, option=node.target, default_val=None
+                )
                 if node.target.eval_type.is_constructed_from(SrcBuiltins.Opcao)
                 and node.member.lexeme == "valor"
                 else node
-- 
2.43.0


From 5a92a56e84885e75de5cd6b9a8deeedde4f8a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 72/78] fix: report a wrong assignment to a field on the line
 of the field

---
 amanda/compiler/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 252521d..0c551b8 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -465,7 +465,7 @@ class IndexSet(Expr):
 
 class Set(Expr):
     def __init__(self, *, target: Get, expr: Expr):
-        super().__init__(expr.token)
+        super().__init__(target.token)
         self.target = target
         self.expr = expr
 
-- 
2.43.0


From 52482c295bb3dbe7f27a5b211a6318621ece7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 73/78] fix: report a wrong pattern or arm on its own line

---
 amanda/compiler/check/iguala.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 7fecd42..c3d0bca 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -21,6 +21,7 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 
     for arm in iguala.arms:
         check_arm(checker, iguala, arm)
+    checker.ctx_node = iguala
 
     # if target is not a reference to a var, must store it in a var
     # so that it can be used later
@@ -73,7 +74,8 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
     for block in tree.diagnostics.reachable[1:]:
         checker.visit(block)
         if block.eval_type != iguala.eval_type:
-            checker.error(
+            checker.error_with_loc(
+                block.token,
                 Errors.IGUALA_BLOCK_BAD_RETURN_TY,
                 expected=iguala.eval_type,
                 actual=block.eval_type,
@@ -109,6 +111,8 @@ def check_pattern(
     pattern: ast.Pattern,
     target_ty: Type,
 ):
+    # The errors of a pattern are on its own line
+    checker.ctx_node = pattern
     match pattern:
         case ast.ADTPattern(adt, args):
             checker.visit(adt)
@@ -138,7 +142,6 @@ def check_pattern(
         case ast.IntPattern(val=val):
             # The limits of a pattern are the same of any other literal
             checker.visit(ast.Constant(val))
-            checker.ctx_node = pattern
             pattern.eval_type = Builtins.Int
         case ast.StrPattern():
             pattern.eval_type = Builtins.Texto
-- 
2.43.0


From 222bbe22fc285d2817a2c86f8e37bef4e40b347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 74/78] fix: names that the compiler gives do not hide the
 variables of the program

---
 amanda/compiler/check/iguala.py | 5 +++--
 amanda/compiler/parse.py        | 4 +++-
 amanda/compiler/symbols/core.py | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index c3d0bca..33cc6de 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -24,7 +24,8 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
     checker.ctx_node = iguala
 
     # if target is not a reference to a var, must store it in a var
-    # so that it can be used later
+    # so that it can be used later. The program cannot have a variable with
+    # the same name, which would be hidden in the arms
     match target:
         case ast.Variable(var_symbol=var):
             iguala.target_binding = var
@@ -32,7 +33,7 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
             iguala.target_binding = target.var_symbol
         case _:
             sym = symbols.VariableSymbol(
-                "_target_", target.eval_type, checker.ctx_module
+                "iguala", target.eval_type, checker.ctx_module
             )
             checker.define_symbol(sym, checker.scope_depth, scope)
             iguala.target_binding = sym
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 6975b0e..c6436a1 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -792,9 +792,11 @@ class Parser:
             block.symbols = else_branch.symbols
             block.children = else_branch.children
             block.token = else_branch.token
+        # The value must not hide a variable that is used in the block, so its
+        # name is one that a variable cannot have
         else_arm = ast.IgualaArm(
             block.token,
-            ast.BindingPattern(ast.Variable(Token(TT.IDENTIFIER, "_"))),
+            ast.BindingPattern(ast.Variable(Token(TT.IDENTIFIER, "senao"))),
             block,
         )
         return ast.Iguala(token, target, [then_arm, else_arm])
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 53ab2e2..22ae703 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -167,7 +167,8 @@ class Scope:
         return len(self.symbols)
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(f"_m{self.count()}_", type, module)
+        # The variables of the program cannot have spaces in their names
+        symbol = VariableSymbol(f"iguala {self.count()}", type, module)
         self.define(symbol.name, symbol)
         return symbol
 
-- 
2.43.0


From 5ed4ddcc72937731df9b801aefda85c7a97dc93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:14 +0000
Subject: [PATCH 75/78] fix: keep the quotes in the path of a module

---
 amanda/compiler/check/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 4211708..9ddb6a1 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -483,7 +483,8 @@ class Analyzer(ast.Visitor):
         return None
 
     def visit_usa(self, node: ast.Usa):
-        fpath = node.module.lexeme.replace("'", "").replace('"', "")
+        # The path is what is between the delimiters of the text
+        fpath = node.module.lexeme[1:-1]
         # Check if path refers to a valid file
         head, tail = path.split(fpath)
         err_msg = f"Erro ao importar módulo. O caminho '{fpath}' não é um ficheiro válido"
-- 
2.43.0


From 45dce7df47b12d15526e6d78cdff566a4029d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 76/78] fix: add the extension to the path of a module called
 ama

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 9ddb6a1..d27a13d 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -491,7 +491,7 @@ class Analyzer(ast.Visitor):
         if not tail:
             self.error(err_msg)
         # If file doesn't have .ama extensions, add it
-        if tail.split(".")[-1] != "ama":
+        if not tail.endswith(".ama"):
             tail = tail + ".ama"
         fpath = path.join(head, tail)
 
-- 
2.43.0


From 6bcca17bd055d31f44f47e3ed251cd4587d2b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:15 +0000
Subject: [PATCH 77/78] fix: a module reached through links is the module of
 its file

---
 amanda/compiler/check/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d27a13d..76b4f3a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -473,13 +473,14 @@ class Analyzer(ast.Visitor):
 
     def resolve_import(self, fpath: str) -> str | None:
         # Try to resolve path using cwd
+        # The same file can be reached through links
         if path.isfile(fpath):
-            return path.abspath(fpath)
+            return path.realpath(fpath)
         # Attempt to resolve using the import_paths
         for dir_path in self.import_paths:
             mod_path = path.join(dir_path, fpath)
             if path.isfile(path.join(dir_path, fpath)):
-                return path.abspath(mod_path)
+                return path.realpath(mod_path)
         return None
 
     def visit_usa(self, node: ast.Usa):
-- 
2.43.0


From f47771cb65260d195569a784ad75d34d36ecd54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:15 +0000
Subject: [PATCH 78/78] fix: errors of a program reached through a link name
 its file

---
 amanda/compiler/error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 7c21bf7..1bfdb6c 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -71,7 +71,7 @@ def fmt_error(context: str, error: AmandaError) -> str:
     Erro sintático: alguma mensagem aqui
         var cao : Animal func
     """
-    filepath = path.relpath(error.fpath)
+    filepath = path.relpath(path.realpath(error.fpath))
     err_loc = f"linha {error.line}"
     # Show column in case of syntax errors
     if error.err_type == AmandaError.SYNTAX_ERR:
@@ -89,7 +89,7 @@ def fmt_error(context: str, error: AmandaError) -> str:
 
 def throw_error(err: AmandaError) -> NoReturn:
     # Attempt to get error line from file
-    filename = path.abspath(err.fpath)
+    filename = err.fpath
     assert path.isfile(filename), "Invalid filename supplied to error"
     context = ""
     with open(filename, "r", encoding="utf8", errors="replace") as f:
-- 
2.43.0

