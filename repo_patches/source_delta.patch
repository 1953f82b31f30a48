From d76580d820446596d7fa6e6147f7983f6809f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 01/18] fix: raw values do not inherit the users of the given
 data

---
 koopa/src/ir/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/koopa/src/ir/builder.rs b/koopa/src/ir/builder.rs
index fd34280..f87c26d 100644
--- a/koopa/src/ir/builder.rs
+++ b/koopa/src/ir/builder.rs
@@ -56,7 +56,8 @@ pub trait ValueBuilder: Sized + EntityInfoQuerier + ValueInserter {
   /// The created [`ValueData`] does not inherit the `used_by` set of
   /// the provided data. See
   /// [`ValueData::clone`](ValueData#impl-Clone-for-ValueData).
-  fn raw(mut self, data: ValueData) -> Value {
+  fn raw(mut self, mut data: ValueData) -> Value {
+    data.used_by.clear();
     self.insert_value(data)
   }
 
-- 
2.43.0


From f0ba9e605004d3d734cf91ab755ad3bdb401a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 02/18] fix: updating a value keeps the users of the value

---
 koopa/src/ir/dfg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koopa/src/ir/dfg.rs b/koopa/src/ir/dfg.rs
index ef00906..ca32dcd 100644
--- a/koopa/src/ir/dfg.rs
+++ b/koopa/src/ir/dfg.rs
@@ -131,7 +131,9 @@ impl DataFlowGraph {
     for bb in data.kind().bb_uses() {
       self.bb_mut(bb).used_by.remove(&value);
     }
+    let used_by = data.used_by.clone();
     f(&mut data);
+    data.used_by = used_by;
     for v in data.kind().value_uses() {
       data_mut!(self, v).used_by.insert(value);
     }
-- 
2.43.0


From 7286d7902d8535ab596dc2e2efd1e9e3c9fe1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 03/18] fix: removing an unknown function returns None instead
 of panicking

---
 koopa/src/ir/entities.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b879e47..b8f6ce4 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -181,9 +181,7 @@ impl Program {
   /// Returns the function data if the function was previously in the program.
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
     self.func_tys.borrow_mut().remove(&func);
-    self
-      .func_layout
-      .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
+    self.func_layout.retain(|f| *f != func);
     self.funcs.remove(&func)
   }
 
-- 
2.43.0


From adbf054f9ab08dbb8a6ff6bafb8f8e30ebaa53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 04/18] fix: forget the parent block of instructions whose
 block is cleared, removed or left for another

---
 koopa/src/ir/layout.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index badf26c..db9f416 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -82,6 +82,18 @@ pub type BasicBlockList = KeyNodeList<BasicBlock, BasicBlockNode, BasicBlockMap>
 
 type InstBBCell = Weak<RefCell<HashMap<Value, BasicBlock>>>;
 
+/// Forgets the parent of the given instructions if it is the given basic block.
+fn detach_insts<'a>(inst_bb: &InstBBCell, bb: BasicBlock, insts: impl Iterator<Item = &'a Value>) {
+  if let Some(inst_bb) = inst_bb.upgrade() {
+    let mut inst_bb = inst_bb.borrow_mut();
+    for inst in insts {
+      if inst_bb.get(inst) == Some(&bb) {
+        inst_bb.remove(inst);
+      }
+    }
+  }
+}
+
 /// The underlying hash map of the [`BasicBlockList`].
 pub struct BasicBlockMap {
   inst_bb: InstBBCell,
@@ -103,6 +115,9 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   }
 
   fn clear(&mut self) {
+    for (bb, node) in &self.map {
+      detach_insts(&self.inst_bb, *bb, node.insts.keys());
+    }
     self.map.clear()
   }
 
@@ -140,7 +155,11 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     BasicBlock: Borrow<Q>,
     Q: ?Sized + Hash + Eq,
   {
-    self.map.remove_entry(k)
+    let kv = self.map.remove_entry(k);
+    if let Some((bb, node)) = &kv {
+      detach_insts(&self.inst_bb, *bb, node.insts.keys());
+    }
+    kv
   }
 }
 
@@ -222,6 +241,7 @@ impl Map<Value, InstNode> for InstMap {
   }
 
   fn clear(&mut self) {
+    detach_insts(&self.inst_bb, self.bb, self.map.keys());
     self.map.clear()
   }
 
@@ -266,14 +286,8 @@ impl Map<Value, InstNode> for InstMap {
     Q: ?Sized + Hash + Eq,
   {
     let kv = self.map.remove_entry(k);
-    if kv.is_some() {
-      self
-        .inst_bb
-        .upgrade()
-        .unwrap()
-        .as_ref()
-        .borrow_mut()
-        .remove(k);
+    if let Some((inst, _)) = &kv {
+      detach_insts(&self.inst_bb, self.bb, std::iter::once(inst));
     }
     kv
   }
-- 
2.43.0


From 5cfe37cbb79b4777be3eb292be6e24d28b44b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 05/18] fix: LLVM functions called before their definition get
 global names

---
 koopa/src/back/llvm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2fec584..addbb13 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -78,6 +78,11 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // name all functions before generating any call,
+    // because the prefix of local values is in force at that time
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     // functions
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
-- 
2.43.0


From 34e451eaf24d593a01315308084b7da66d9848bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 06/18] fix: elements of LLVM aggregates are always typed

---
 koopa/src/back/llvm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index addbb13..a01be3a 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -447,7 +447,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           if i != 0 {
             write!(self.w, ", ")?;
           }
-          self.visit_local_const(with_ty, value!(self, *elem))?;
+          self.visit_local_const(true, value!(self, *elem))?;
         }
         write!(self.w, "]")
       }
-- 
2.43.0


From 5963c1e9cf0a251c7ff8e44f583f4f7d802dacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 07/18] fix: generated names never repeat a name that is
 already used

---
 koopa/src/back/generator.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index aa0060b..ce2c881 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -136,18 +136,23 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name<F>(&mut self, name: &Option<String>, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     // check if there is a name
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
       // generate a temporary name
-      let name = self.prefix.temp_name(self.next_id);
-      self.next_id += 1;
-      let names = name_set(self);
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+      loop {
+        let name = self.prefix.temp_name(self.next_id);
+        self.next_id += 1;
+        let names = name_set(self);
+        // skip names that are already used by named values
+        if !names.contains(&name) {
+          names.insert(name.clone().into());
+          return names.get(&name).unwrap().to_rc();
+        }
+      }
     }
   }
 
-- 
2.43.0


From f94120d181109c0d25fa11bb79f9cae0542e5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 08/18] fix: report wrong argument counts in text form IR
 instead of panicking

---
 koopa/src/front/builder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c2ca9d4..fd44d70 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -503,12 +503,12 @@ impl Builder {
     args_ty: &[Type],
   ) -> Result<Vec<Value>, Error> {
     // check length of argument list
-    if args.len() != args.len() {
+    if args.len() != args_ty.len() {
       return_error!(
         span,
         "expected {} {}, found {} {}",
-        args.len(),
-        "arguments".to_plural(args.len()),
+        args_ty.len(),
+        "arguments".to_plural(args_ty.len()),
         args.len(),
         "arguments".to_plural(args.len())
       );
-- 
2.43.0


From 4b27b88678d5d411cf5dac4678ffe93015af42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 09/18] fix: only arrays of the same length can be initialized
 with aggregates

---
 koopa/src/front/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index fd44d70..2214336 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -72,7 +72,7 @@ macro_rules! generate_init {
         let $elem_ty = match $ty.kind() {
           TypeKind::Array(base, len) => {
             if *len != agg.elems.len() {
-              log_error!(
+              return_error!(
                 $ast.span,
                 "expected array length {}, found length {}",
                 len,
@@ -81,7 +81,6 @@ macro_rules! generate_init {
             }
             base
           }
-          TypeKind::Pointer(base) => base,
           _ => return_error!($ast.span, "invalid aggregate type '{}'", $ty),
         };
         let elems = agg.elems.iter().map($agg_rec).collect::<Result<_, _>>()?;
-- 
2.43.0


From 4708f7c013dba3c1b316d4cc104e6b7fac23d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 10/18] fix: jumping to an undefined basic block is an error,
 not a panic

---
 koopa/src/front/builder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 2214336..cb560ea 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -344,12 +344,10 @@ impl Builder {
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
       let mut add_pred = |bb_name| {
-        self
-          .local_bbs
-          .get_mut(bb_name)
-          .unwrap()
-          .preds
-          .push(block.name.clone());
+        // unknown blocks have already been reported
+        if let Some(info) = self.local_bbs.get_mut(bb_name) {
+          info.preds.push(block.name.clone());
+        }
       };
       match &last_inst.kind {
         AstKind::Branch(ast::Branch { tbb, fbb, .. }) => {
-- 
2.43.0


From 68af1e74b2cfa5b589e0b56bd326a9edac36bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 11/18] fix: function parameters may not redefine globals or be
 redefined by block parameters

---
 koopa/src/front/builder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index cb560ea..f1b51f0 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -189,6 +189,9 @@ impl Builder {
       if args.insert(n.clone(), *p).is_some() {
         log_error!(a.span, "duplicate parameter name '{}'", n);
       }
+      if self.global_vars.contains_key(n) {
+        log_error!(a.span, "symbol '{}' has already been defined", n);
+      }
     }
     // add to global function map
     if self.global_vars.contains_key(&ast.name)
@@ -297,6 +300,8 @@ impl Builder {
 
   /// Initializes local basic block map.
   fn init_local_bbs(&mut self, func: Function, args: HashMap<String, Value>, bbs: &[&ast::Block]) {
+    // add argument references local symbols
+    self.local_symbols.extend(args.keys().cloned());
     // create all basic blocks
     self.local_bbs.clear();
     for block in bbs {
@@ -334,8 +339,6 @@ impl Builder {
       // insert block info to local basic block map
       self.local_bbs.insert(block.name.clone(), info);
     }
-    // add argument references local symbols
-    self.local_symbols.extend(args.keys().cloned());
     // add argument references to the entry basic block
     let entry_bb_name = &bbs[0].name;
     let entry_info = &mut self.local_bbs.get_mut(entry_bb_name).unwrap();
-- 
2.43.0


From a910c2b96c2f1083da9016b20f0a53dffaff37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 12/18] fix: parameters of the entry basic block can be used

---
 koopa/src/front/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index f1b51f0..8794487 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -342,7 +342,7 @@ impl Builder {
     // add argument references to the entry basic block
     let entry_bb_name = &bbs[0].name;
     let entry_info = &mut self.local_bbs.get_mut(entry_bb_name).unwrap();
-    entry_info.local_defs = args;
+    entry_info.local_defs.extend(args);
     // fill predecessors
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
-- 
2.43.0


From eb67c5bdaaf951bfecb3df12a59d295b0d65d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 13/18] fix: integer literals that do not fit 32 bits are
 errors

---
 koopa/src/front/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index cee270d..77e2afa 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -4,7 +4,7 @@ use crate::front::ast::{self, AstBox};
 use crate::front::lexer::Lexer;
 use crate::front::span::{Error, Span};
 use crate::front::token::{Keyword, Token, TokenKind};
-use crate::return_error;
+use crate::{log_error, return_error};
 use std::io::Read;
 
 /// A parser for parsing the text form Koopa IR.
@@ -492,7 +492,7 @@ impl<T: Read> Parser<T> {
       // symbol reference
       TokenKind::Symbol(s) => ast::SymbolRef::new_boxed(*span, s.clone()),
       // integer literal
-      TokenKind::Int(i) => ast::IntVal::new_boxed(*span, *i as i32),
+      TokenKind::Int(i) => ast::IntVal::new_boxed(*span, Self::int_value(span, *i)?),
       // undefined value
       TokenKind::Keyword(Keyword::Undef) => ast::UndefVal::new_boxed(*span),
       // unknown
@@ -508,7 +508,7 @@ impl<T: Read> Parser<T> {
     match kind {
       // integer literal
       TokenKind::Int(i) => {
-        let ast = ast::IntVal::new_boxed(*span, *i as i32);
+        let ast = ast::IntVal::new_boxed(*span, Self::int_value(span, *i)?);
         self.next_token()?;
         Ok(ast)
       }
@@ -531,6 +531,12 @@ impl<T: Read> Parser<T> {
     }
   }
 
+  /// Converts the value of an integer literal to a 32-bit integer.
+  fn int_value(span: &Span, value: i64) -> std::result::Result<i32, Error> {
+    i32::try_from(value)
+      .map_err(|_| log_error!(span, "integer literal '{}' is out of range", value))
+  }
+
   /// Parses aggregates.
   fn parse_aggregate(&mut self) -> Result {
     let span = self.span();
-- 
2.43.0


From da34d96bf6e1d11c52769005babe6789b07440ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 14/18] fix: array lengths that are not positive are errors

---
 koopa/src/front/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index 77e2afa..c11b80c 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -219,10 +219,14 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get length
-    let len = read!(self, TokenKind::Int, "length")? as usize;
+    let len_span = self.span();
+    let len = read!(self, TokenKind::Int, "length")?;
+    if len <= 0 {
+      return_error!(len_span, "array length must be positive, found {}", len);
+    }
     // check & eat ']'
     span.update_span(self.expect(TokenKind::Other(']'))?);
-    Ok(ast::ArrayType::new_boxed(span, base, len))
+    Ok(ast::ArrayType::new_boxed(span, base, len as usize))
   }
 
   /// Parses pointer types.
-- 
2.43.0


From 9101f66a7dc684c6c83f6c9f1b36457356997f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 15/18] fix: printing an error never panics on the source text

---
 koopa/src/front/span.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 58bb176..409edb7 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -79,24 +79,25 @@ pub struct Span {
 macro_rules! get_line_str {
   ($line:expr) => {
     $line
-      .map_or("".into(), |r| r.unwrap())
+      .and_then(|r| r.ok())
+      .unwrap_or_default()
       .replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
   };
   ($line:expr, $col:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
+    let line = $line.and_then(|r| r.ok()).unwrap_or_default();
     let col = $col as usize;
-    let tabs = (&line[..col]).matches('\t').count();
+    let tabs = line.bytes().take(col).filter(|b| *b == b'\t').count();
     (
       line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
       col + tabs * (Span::TAB_WIDTH - 1),
     )
   }};
   ($line:expr, $col1:expr, $col2:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
+    let line = $line.and_then(|r| r.ok()).unwrap_or_default();
     let col1 = $col1 as usize;
     let col2 = $col2 as usize;
-    let tabs1 = (&line[..col1]).matches('\t').count();
-    let tabs2 = tabs1 + (&line[col1..col2]).matches('\t').count();
+    let tabs1 = line.bytes().take(col1).filter(|b| *b == b'\t').count();
+    let tabs2 = line.bytes().take(col2).filter(|b| *b == b'\t').count();
     (
       line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
       col1 + tabs1 * (Span::TAB_WIDTH - 1),
@@ -327,9 +328,10 @@ impl Span {
     if self.start.col > 0
       && self.end.col > 0
       && let FileType::File(path) = file
+      && let Ok(file) = File::open(path)
     {
       // open file and get lines
-      let mut lines = BufReader::new(File::open(path).unwrap()).lines();
+      let mut lines = BufReader::new(file).lines();
       if self.start.line == self.end.line {
         self.print_single_line_info(&mut lines, color);
       } else {
-- 
2.43.0


From 2c7848f3ac8be98833b42e4437bf89e33b856b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 16/18] fix: an error at a column beyond 65535 no longer panics
 while it is printed

---
 koopa/src/front/span.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 409edb7..44c32be 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -359,8 +359,8 @@ impl Span {
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:w$} {} {:l$}", "", "|".blue(), "", w = width, l = leading);
-    eprintln!("{}", format!("{:^>w$}", "", w = len).color(color));
+    eprint!("{:w$} {} ", "", "|".blue(), w = width);
+    eprintln!("{}{}", " ".repeat(leading), "^".repeat(len).color(color));
   }
 
   /// Prints the multi-line information.
@@ -381,7 +381,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{}   {}", "|".blue(), line);
     eprint!("{:w$} {}  ", "", "|".blue(), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = start).color(color));
+    eprintln!("{}", ("_".repeat(start) + "^").color(color));
     // print the middle lines to stderr
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -407,7 +407,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
     eprint!("{:w$} {} {}", "", "|".blue(), "|".color(color), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = end).color(color));
+    eprintln!("{}", ("_".repeat(end) + "^").color(color));
   }
 }
 
-- 
2.43.0


From da265c108510220c47c3261e211ccd1ef07dd74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 17/18] fix: building a second raw program with one builder no
 longer panics

---
 libkoopa/src/raw/builder.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e93dfdf..5b5566e 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -36,26 +36,21 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
-    // fill `used_by` fields of all values
-    let slices: Vec<_> = self
-      .values
-      .keys()
-      .map(|value| {
-        let v: Vec<_> = info.value_used_by[value]
-          .iter()
-          .map(|v| self.values[v].get() as *const ())
-          .collect();
-        let slice = RawSlice {
-          buffer: v.as_ptr() as *const c_void,
-          len: v.len() as u32,
-          kind: RawSliceItemKind::Value,
-        };
-        self.slices.push(v);
-        slice
-      })
-      .collect();
-    for (data, slice) in self.values.values_mut().zip(slices.into_iter()) {
-      data.get_mut().used_by = slice;
+    // fill `used_by` fields of all newly built values
+    for (value, used_by) in info.value_used_by {
+      // users that are not in the raw program are ignored
+      let v: Vec<_> = used_by
+        .iter()
+        .filter_map(|v| self.values.get(v))
+        .map(|v| v.get() as *const ())
+        .collect();
+      let slice = RawSlice {
+        buffer: v.as_ptr() as *const c_void,
+        len: v.len() as u32,
+        kind: RawSliceItemKind::Value,
+      };
+      self.slices.push(v);
+      self.values.get_mut(&value).unwrap().get_mut().used_by = slice;
     }
     raw
   }
-- 
2.43.0


From 1ae7d6eae22ae9d6cbf3248e75adc49804098459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 18/18] fix: raw programs keep the order of their functions and
 basic blocks

---
 libkoopa/src/raw/generator.rs | 56 ++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 0e2b9ba..f51ed6d 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -3,10 +3,9 @@ use super::entities::*;
 use crate::errors::ErrorCode;
 use koopa::ir::builder_traits::*;
 use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::ffi::CStr;
 use std::marker::PhantomData;
-use std::mem::replace;
 use std::os::raw::c_char;
 use std::ptr::null;
 
@@ -24,6 +23,8 @@ pub(crate) fn generate_program(raw: &RawProgram) -> Result<Program> {
 struct ProgramInfo {
   values: HashMap<RawValue, Value>,
   funcs: HashMap<RawFunction, FunctionInfo>,
+  /// Functions whose basic blocks are not generated yet.
+  pending: VecDeque<RawFunction>,
   cur_func: RawFunction,
 }
 
@@ -33,6 +34,7 @@ impl ProgramInfo {
     ProgramInfo {
       values: HashMap::new(),
       funcs: HashMap::new(),
+      pending: VecDeque::new(),
       cur_func: null(),
     }
   }
@@ -52,6 +54,8 @@ impl ProgramInfo {
 struct FunctionInfo {
   func: Function,
   bbs: HashMap<RawBasicBlock, BasicBlock>,
+  /// Basic blocks whose instructions are not generated yet.
+  pending: VecDeque<RawBasicBlock>,
   values: HashMap<RawValue, Value>,
 }
 
@@ -61,6 +65,7 @@ impl FunctionInfo {
     Self {
       func,
       bbs: HashMap::new(),
+      pending: VecDeque::new(),
       values,
     }
   }
@@ -203,9 +208,13 @@ impl GenerateOnRaw for RawProgram<'_> {
     for value in self.values.values()? {
       value.generate(program, info)?;
     }
+    // generate all functions in order before generating their basic blocks
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
     }
+    while let Some(func) = info.pending.pop_front() {
+      generate_bbs(func, program, info)?;
+    }
     Ok(())
   }
 }
@@ -263,19 +272,37 @@ impl GenerateOnRaw for RawFunction {
         .collect();
       // insert to function map
       info.funcs.insert(*self, FunctionInfo::new(func, values));
-      // generate basic blocks
-      if raw.bbs.len != 0 {
-        let last_func = replace(&mut info.cur_func, *self);
-        for bb in raw.bbs.bbs()? {
-          bb.generate(program, info)?;
-        }
-        info.cur_func = last_func;
-      }
+      // generate basic blocks later
+      info.pending.push_back(*self);
       Ok(func)
     }
   }
 }
 
+/// Generates basic blocks of the given raw function, and the instructions in them.
+fn generate_bbs(func: RawFunction, program: &mut Program, info: &mut ProgramInfo) -> Result<()> {
+  let raw = unsafe { &*func };
+  if raw.bbs.len == 0 {
+    return Ok(());
+  }
+  info.cur_func = func;
+  // generate all basic blocks in order before generating their instructions
+  for bb in raw.bbs.bbs()? {
+    bb.generate(program, info)?;
+  }
+  while let Some(raw_bb) = info.cur_func_info_mut().pending.pop_front() {
+    let bb = raw_bb.generate(program, info)?;
+    for inst in unsafe { &*raw_bb }.insts.values()? {
+      let inst = inst.generate(program, info)?;
+      // insert to the current basic block
+      let layout = program.func_mut(info.cur_func_info().func).layout_mut();
+      layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+    }
+  }
+  info.cur_func = null();
+  Ok(())
+}
+
 impl GenerateOnRaw for RawBasicBlock {
   type Entity = BasicBlock;
 
@@ -309,13 +336,8 @@ impl GenerateOnRaw for RawBasicBlock {
       raw.params.values()?.zip(params).for_each(|(rp, p)| {
         func_info.values.insert(rp, *p);
       });
-      // generate instructions
-      for inst in raw.insts.values()? {
-        let inst = inst.generate(program, info)?;
-        // insert to the current basic block
-        let layout = program.func_mut(info.cur_func_info().func).layout_mut();
-        layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
-      }
+      // generate instructions later
+      func_info.pending.push_back(*self);
       Ok(bb)
     }
   }
-- 
2.43.0

