//! Instantiation roots: one function per public entry point of `koopa`, so that the driver can
//! collect the monomorphic bodies behind it. Nothing here is ever executed.
#![allow(deprecated, unused_must_use, clippy::all)]
use koopa::back::{Generator, KoopaGenerator, LlvmGenerator};
use koopa::front::Driver;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::*;
use koopa::ir::*;
use koopa::ir::layout::*;
use koopa::opt::*;
use std::fmt;
use std::io;

/// An opaque writer/reader: its methods have no body the analysis could look into.
pub struct Sink;
unsafe extern "Rust" {
  fn ext_write(b: &[u8]) -> io::Result<usize>;
  fn ext_flush() -> io::Result<()>;
  fn ext_read(b: &mut [u8]) -> io::Result<usize>;
}
impl io::Write for Sink {
  fn write(&mut self, b: &[u8]) -> io::Result<usize> { unsafe { ext_write(b) } }
  fn flush(&mut self) -> io::Result<()> { unsafe { ext_flush() } }
}
impl io::Read for Sink {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { unsafe { ext_read(b) } }
}

macro_rules! builders {
  ($m:ident, $get:expr) => {
    pub mod $m {
      use super::*;
      pub fn raw(d: &mut FunctionData, v: Value, x: ValueData) -> Value { $get(d, v).raw(x) }
      pub fn integer(d: &mut FunctionData, v: Value, x: i32) -> Value { $get(d, v).integer(x) }
      pub fn zero_init(d: &mut FunctionData, v: Value, x: Type) -> Value { $get(d, v).zero_init(x) }
      pub fn undef(d: &mut FunctionData, v: Value, x: Type) -> Value { $get(d, v).undef(x) }
      pub fn aggregate(d: &mut FunctionData, v: Value, x: Vec<Value>) -> Value { $get(d, v).aggregate(x) }
      pub fn alloc(d: &mut FunctionData, v: Value, x: Type) -> Value { $get(d, v).alloc(x) }
      pub fn load(d: &mut FunctionData, v: Value, x: Value) -> Value { $get(d, v).load(x) }
      pub fn store(d: &mut FunctionData, v: Value, x: Value, y: Value) -> Value { $get(d, v).store(x, y) }
      pub fn get_ptr(d: &mut FunctionData, v: Value, x: Value, y: Value) -> Value { $get(d, v).get_ptr(x, y) }
      pub fn get_elem_ptr(d: &mut FunctionData, v: Value, x: Value, y: Value) -> Value { $get(d, v).get_elem_ptr(x, y) }
      pub fn binary(d: &mut FunctionData, v: Value, op: BinaryOp, x: Value, y: Value) -> Value { $get(d, v).binary(op, x, y) }
      pub fn branch(d: &mut FunctionData, v: Value, c: Value, x: BasicBlock, y: BasicBlock) -> Value { $get(d, v).branch(c, x, y) }
      pub fn branch_with_args(d: &mut FunctionData, v: Value, c: Value, x: BasicBlock, y: BasicBlock, a: Vec<Value>, b: Vec<Value>) -> Value { $get(d, v).branch_with_args(c, x, y, a, b) }
      pub fn jump(d: &mut FunctionData, v: Value, x: BasicBlock) -> Value { $get(d, v).jump(x) }
      pub fn jump_with_args(d: &mut FunctionData, v: Value, x: BasicBlock, a: Vec<Value>) -> Value { $get(d, v).jump_with_args(x, a) }
      pub fn call(d: &mut FunctionData, v: Value, f: Function, a: Vec<Value>) -> Value { $get(d, v).call(f, a) }
      pub fn ret(d: &mut FunctionData, v: Value, a: Option<Value>) -> Value { $get(d, v).ret(a) }
    }
  };
}
fn local_new(d: &mut FunctionData, _: Value) -> builder::LocalBuilder<'_> { d.dfg_mut().new_value() }
fn local_replace(d: &mut FunctionData, v: Value) -> builder::ReplaceBuilder<'_> { d.dfg_mut().replace_value_with(v) }
builders!(local, local_new);
builders!(replace, local_replace);

pub mod block {
  use super::*;
  pub fn basic_block(d: &mut FunctionData, n: Option<String>) -> BasicBlock { d.dfg_mut().new_bb().basic_block(n) }
  pub fn basic_block_with_params(d: &mut FunctionData, n: Option<String>, p: Vec<Type>) -> BasicBlock { d.dfg_mut().new_bb().basic_block_with_params(n, p) }
  pub fn basic_block_with_param_names(d: &mut FunctionData, n: Option<String>, p: Vec<(Option<String>, Type)>) -> BasicBlock { d.dfg_mut().new_bb().basic_block_with_param_names(n, p) }
}
pub mod global {
  use super::*;
  pub fn raw(p: &mut Program, x: ValueData) -> Value { p.new_value().raw(x) }
  pub fn integer(p: &mut Program, x: i32) -> Value { p.new_value().integer(x) }
  pub fn zero_init(p: &mut Program, x: Type) -> Value { p.new_value().zero_init(x) }
  pub fn undef(p: &mut Program, x: Type) -> Value { p.new_value().undef(x) }
  pub fn aggregate(p: &mut Program, x: Vec<Value>) -> Value { p.new_value().aggregate(x) }
  pub fn global_alloc(p: &mut Program, x: Value) -> Value { p.new_value().global_alloc(x) }
}
pub mod dfg {
  use super::*;
  pub fn update_value(d: &mut FunctionData, v: Value, f: fn(&mut ValueData)) { d.dfg_mut().update_value(v, f) }
  pub fn remove_value(d: &mut FunctionData, v: Value) -> ValueData { d.dfg_mut().remove_value(v) }
  pub fn remove_bb(d: &mut FunctionData, b: BasicBlock) -> BasicBlockData { d.dfg_mut().remove_bb(b) }
  pub fn set_value_name(d: &mut FunctionData, v: Value, n: Option<String>) { d.dfg_mut().set_value_name(v, n) }
  pub fn value(d: &FunctionData, v: Value) -> &ValueData { d.dfg().value(v) }
  pub fn bb(d: &FunctionData, b: BasicBlock) -> &BasicBlockData { d.dfg().bb(b) }
  pub fn value_eq(d: &FunctionData, a: Value, b: Value) -> bool { d.dfg().value_eq(a, b) }
  pub fn data_eq(d: &FunctionData, a: &ValueData, b: &ValueData) -> bool { d.dfg().data_eq(a, b) }
  pub fn globals_of(p: &Program) -> std::cell::Ref<'_, std::collections::HashMap<Value, ValueData>> { p.borrow_values() }
}
pub mod program {
  use super::*;
  pub fn new() -> Program { Program::new() }
  pub fn new_func(p: &mut Program, d: FunctionData) -> Function { p.new_func(d) }
  pub fn new_func_def(p: &mut Program, n: String, t: Vec<Type>, r: Type) -> Function { p.new_func_def(n, t, r) }
  pub fn new_func_def_with_param_names(p: &mut Program, n: String, t: Vec<(Option<String>, Type)>, r: Type) -> Function { p.new_func_def_with_param_names(n, t, r) }
  pub fn new_func_decl(p: &mut Program, n: String, t: Vec<Type>, r: Type) -> Function { p.new_func_decl(n, t, r) }
  pub fn func_data_new(n: String, t: Vec<Type>, r: Type) -> FunctionData { FunctionData::new(n, t, r) }
  pub fn func_data_named(n: String, t: Vec<(Option<String>, Type)>, r: Type) -> FunctionData { FunctionData::with_param_names(n, t, r) }
  pub fn func_data_decl(n: String, t: Vec<Type>, r: Type) -> FunctionData { FunctionData::new_decl(n, t, r) }
  pub fn remove_func(p: &mut Program, f: Function) -> Option<FunctionData> { p.remove_func(f) }
  pub fn remove_value(p: &mut Program, v: Value) -> ValueData { p.remove_value(v) }
  pub fn set_value_name(p: &mut Program, v: Value, n: Option<String>) { p.set_value_name(v, n) }
  pub fn borrow_value(p: &Program, v: Value) -> std::cell::Ref<'_, ValueData> { p.borrow_value(v) }
  pub fn func(p: &Program, f: Function) -> &FunctionData { p.func(f) }
  pub fn func_mut(p: &mut Program, f: Function) -> &mut FunctionData { p.func_mut(f) }
  pub fn func_layout(p: &Program) -> &[Function] { p.func_layout() }
  pub fn inst_layout(p: &Program) -> &[Value] { p.inst_layout() }
  pub fn funcs(p: &Program) -> &std::collections::HashMap<Function, FunctionData> { p.funcs() }
  pub fn is_global(v: Value) -> bool { v.is_global() }
}
pub mod data {
  use super::*;
  pub fn ty(d: &ValueData) -> &Type { d.ty() }
  pub fn name(d: &ValueData) -> &Option<String> { d.name() }
  pub fn kind(d: &ValueData) -> &ValueKind { d.kind() }
  pub fn kind_mut(d: &mut ValueData) -> &mut ValueKind { d.kind_mut() }
  pub fn used_by(d: &ValueData) -> &std::collections::HashSet<Value> { d.used_by() }
  pub fn clone(d: &ValueData) -> ValueData { d.clone() }
  pub fn bb_name(d: &BasicBlockData) -> &Option<String> { d.name() }
  pub fn bb_params(d: &BasicBlockData) -> &[Value] { d.params() }
  pub fn bb_used_by(d: &BasicBlockData) -> &std::collections::HashSet<Value> { d.used_by() }
  pub fn func_ty(d: &FunctionData) -> &Type { d.ty() }
  pub fn func_name(d: &FunctionData) -> &str { d.name() }
  pub fn func_params(d: &FunctionData) -> &[Value] { d.params() }
  pub fn func_dfg(d: &FunctionData) -> &koopa::ir::dfg::DataFlowGraph { d.dfg() }
  pub fn func_layout(d: &FunctionData) -> &Layout { d.layout() }
  pub fn dfg_values(d: &koopa::ir::dfg::DataFlowGraph) -> &std::collections::HashMap<Value, ValueData> { d.values() }
  pub fn dfg_bbs(d: &koopa::ir::dfg::DataFlowGraph) -> &std::collections::HashMap<BasicBlock, BasicBlockData> { d.bbs() }
  pub fn layout_bbs(d: &Layout) -> &BasicBlockList { d.bbs() }
  pub fn insts(d: &BasicBlockNode) -> &InstList { d.insts() }
  pub fn is_const(k: &ValueKind) -> bool { k.is_const() }
  pub fn is_global_alloc(k: &ValueKind) -> bool { k.is_global_alloc() }
  pub fn is_local_inst(k: &ValueKind) -> bool { k.is_local_inst() }
}
pub mod uses {
  use super::*;
  pub fn values(k: &ValueKind, f: fn(Value)) { for v in k.value_uses() { f(v) } }
  pub fn bbs(k: &ValueKind, f: fn(BasicBlock)) { for v in k.bb_uses() { f(v) } }
}
pub mod handles {
  use super::*;
  use std::hash::Hash;
  pub fn value_eq(a: &Value, b: &Value) -> bool { a == b }
  pub fn bb_eq(a: &BasicBlock, b: &BasicBlock) -> bool { a == b }
  pub fn func_eq(a: &Function, b: &Function) -> bool { a == b }
  pub fn value_hash(a: &Value, h: &mut std::collections::hash_map::DefaultHasher) { a.hash(h) }
  pub fn bb_hash(a: &BasicBlock, h: &mut std::collections::hash_map::DefaultHasher) { a.hash(h) }
  pub fn func_hash(a: &Function, h: &mut std::collections::hash_map::DefaultHasher) { a.hash(h) }
}
pub mod types {
  use super::*;
  pub fn get(k: TypeKind) -> Type { Type::get(k) }
  pub fn get_i32() -> Type { Type::get_i32() }
  pub fn get_unit() -> Type { Type::get_unit() }
  pub fn get_array(b: Type, n: usize) -> Type { Type::get_array(b, n) }
  pub fn get_pointer(b: Type) -> Type { Type::get_pointer(b) }
  pub fn get_function(p: Vec<Type>, r: Type) -> Type { Type::get_function(p, r) }
  pub fn set_ptr_size(n: usize) { Type::set_ptr_size(n) }
  pub fn kind(t: &Type) -> &TypeKind { t.kind() }
  pub fn is_i32(t: &Type) -> bool { t.is_i32() }
  pub fn is_unit(t: &Type) -> bool { t.is_unit() }
  pub fn size(t: &Type) -> usize { t.size() }
  pub fn eq(a: &Type, b: &Type) -> bool { <Type as PartialEq>::eq(a, b) }
  pub fn ne(a: &Type, b: &Type) -> bool { <Type as PartialEq>::ne(a, b) }
  pub fn hash(a: &Type, h: &mut std::collections::hash_map::DefaultHasher) { use std::hash::Hash; a.hash(h) }
  pub fn display(a: &Type) -> String { format!("{}", a) }
  pub fn kind_display(a: &TypeKind) -> String { format!("{}", a) }
  pub fn fmt(a: &Type, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
  pub fn kind_fmt(a: &TypeKind, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
  pub fn clone(a: &Type) -> Type { a.clone() }
  pub fn kind_eq(a: &TypeKind, b: &TypeKind) -> bool { <TypeKind as PartialEq>::eq(a, b) }
  pub fn kind_ne(a: &TypeKind, b: &TypeKind) -> bool { <TypeKind as PartialEq>::ne(a, b) }
  pub fn kind_hash(a: &TypeKind, h: &mut std::collections::hash_map::DefaultHasher) { use std::hash::Hash; a.hash(h) }
}
pub mod acc {
  use super::*;
  use koopa::ir::values::*;
  pub fn integer_value(x: &Integer) -> i32 { x.value() }
  pub fn integer_value_mut(x: &mut Integer) -> &mut i32 { x.value_mut() }
  pub fn aggregate_elems(x: &Aggregate) -> &[Value] { x.elems() }
  pub fn aggregate_elems_mut(x: &mut Aggregate) -> &mut Vec<Value> { x.elems_mut() }
  pub fn funcargref_index(x: &FuncArgRef) -> usize { x.index() }
  pub fn funcargref_index_mut(x: &mut FuncArgRef) -> &mut usize { x.index_mut() }
  pub fn blockargref_index(x: &BlockArgRef) -> usize { x.index() }
  pub fn blockargref_index_mut(x: &mut BlockArgRef) -> &mut usize { x.index_mut() }
  pub fn globalalloc_init(x: &GlobalAlloc) -> Value { x.init() }
  pub fn globalalloc_init_mut(x: &mut GlobalAlloc) -> &mut Value { x.init_mut() }
  pub fn load_src(x: &Load) -> Value { x.src() }
  pub fn load_src_mut(x: &mut Load) -> &mut Value { x.src_mut() }
  pub fn store_value(x: &Store) -> Value { x.value() }
  pub fn store_value_mut(x: &mut Store) -> &mut Value { x.value_mut() }
  pub fn store_dest(x: &Store) -> Value { x.dest() }
  pub fn store_dest_mut(x: &mut Store) -> &mut Value { x.dest_mut() }
  pub fn getptr_src(x: &GetPtr) -> Value { x.src() }
  pub fn getptr_src_mut(x: &mut GetPtr) -> &mut Value { x.src_mut() }
  pub fn getptr_index(x: &GetPtr) -> Value { x.index() }
  pub fn getptr_index_mut(x: &mut GetPtr) -> &mut Value { x.index_mut() }
  pub fn getelemptr_src(x: &GetElemPtr) -> Value { x.src() }
  pub fn getelemptr_src_mut(x: &mut GetElemPtr) -> &mut Value { x.src_mut() }
  pub fn getelemptr_index(x: &GetElemPtr) -> Value { x.index() }
  pub fn getelemptr_index_mut(x: &mut GetElemPtr) -> &mut Value { x.index_mut() }
  pub fn binary_op(x: &Binary) -> BinaryOp { x.op() }
  pub fn binary_op_mut(x: &mut Binary) -> &mut BinaryOp { x.op_mut() }
  pub fn binary_lhs(x: &Binary) -> Value { x.lhs() }
  pub fn binary_lhs_mut(x: &mut Binary) -> &mut Value { x.lhs_mut() }
  pub fn binary_rhs(x: &Binary) -> Value { x.rhs() }
  pub fn binary_rhs_mut(x: &mut Binary) -> &mut Value { x.rhs_mut() }
  pub fn branch_cond(x: &Branch) -> Value { x.cond() }
  pub fn branch_cond_mut(x: &mut Branch) -> &mut Value { x.cond_mut() }
  pub fn branch_true_bb(x: &Branch) -> BasicBlock { x.true_bb() }
  pub fn branch_true_bb_mut(x: &mut Branch) -> &mut BasicBlock { x.true_bb_mut() }
  pub fn branch_false_bb(x: &Branch) -> BasicBlock { x.false_bb() }
  pub fn branch_false_bb_mut(x: &mut Branch) -> &mut BasicBlock { x.false_bb_mut() }
  pub fn branch_true_args(x: &Branch) -> &[Value] { x.true_args() }
  pub fn branch_true_args_mut(x: &mut Branch) -> &mut Vec<Value> { x.true_args_mut() }
  pub fn branch_false_args(x: &Branch) -> &[Value] { x.false_args() }
  pub fn branch_false_args_mut(x: &mut Branch) -> &mut Vec<Value> { x.false_args_mut() }
  pub fn jump_target(x: &Jump) -> BasicBlock { x.target() }
  pub fn jump_target_mut(x: &mut Jump) -> &mut BasicBlock { x.target_mut() }
  pub fn jump_args(x: &Jump) -> &[Value] { x.args() }
  pub fn jump_args_mut(x: &mut Jump) -> &mut Vec<Value> { x.args_mut() }
  pub fn call_callee(x: &Call) -> Function { x.callee() }
  pub fn call_callee_mut(x: &mut Call) -> &mut Function { x.callee_mut() }
  pub fn call_args(x: &Call) -> &[Value] { x.args() }
  pub fn call_args_mut(x: &mut Call) -> &mut Vec<Value> { x.args_mut() }
  pub fn return_value(x: &Return) -> Option<Value> { x.value() }
  pub fn return_value_mut(x: &mut Return) -> &mut Option<Value> { x.value_mut() }
}
pub mod layout {
  use super::*;
  pub fn new() -> Layout { Layout::new() }
  pub fn parent_bb(l: &Layout, i: Value) -> Option<BasicBlock> { l.parent_bb(i) }
  pub fn bb_mut(l: &mut Layout, b: BasicBlock) -> &mut BasicBlockNode { l.bb_mut(b) }
  pub fn entry_bb(l: &Layout) -> Option<BasicBlock> { l.entry_bb() }
  pub fn bb_push(l: &mut Layout, b: BasicBlock) -> Result<(), BasicBlock> { l.bbs_mut().push_key_back(b) }
  pub fn bb_clear(l: &mut Layout) { l.bbs_mut().clear() }
  pub fn bb_pop(l: &mut Layout) { l.bbs_mut().pop_front(); }
  pub fn inst_push(n: &mut BasicBlockNode, v: Value) -> Result<(), Value> { n.insts_mut().push_key_back(v) }
  pub fn inst_clear(n: &mut BasicBlockNode) { n.insts_mut().clear() }
  pub fn inst_pop(n: &mut BasicBlockNode) { n.insts_mut().pop_front(); }
}
pub mod nm {
  use super::*;
  use koopa::back::{NameManager, Prefix};
  use std::rc::Rc;
  pub fn new() -> NameManager { NameManager::new() }
  pub fn func_name(m: &mut NameManager, f: &FunctionData) -> Rc<String> { m.func_name(f) }
  pub fn bb_name(m: &mut NameManager, b: &BasicBlockData) -> Rc<String> { m.bb_name(b) }
  pub fn value_name(m: &mut NameManager, v: &ValueData) -> Rc<String> { m.value_name(v) }
  pub fn temp_value_name(m: &mut NameManager) -> Rc<String> { m.temp_value_name() }
  pub fn set_prefix(m: &mut NameManager, p: Prefix) { m.set_prefix(p) }
  pub fn enter_func_scope(m: &mut NameManager) { m.enter_func_scope() }
  pub fn exit_func_scope(m: &mut NameManager) { m.exit_func_scope() }
}
pub mod gen_koopa {
  use super::*;
  pub fn new() -> KoopaGenerator<Sink> { KoopaGenerator::new(Sink) }
  pub fn generate_on(g: &mut KoopaGenerator<Sink>, p: &Program) -> io::Result<()> { g.generate_on(p) }
}
pub mod gen_llvm {
  use super::*;
  pub fn new() -> LlvmGenerator<Sink> { LlvmGenerator::new(Sink) }
  pub fn generate_on(g: &mut LlvmGenerator<Sink>, p: &Program) -> io::Result<()> { g.generate_on(p) }
}
pub mod keys {
  use super::*;
  pub fn bbs(l: &Layout) -> Vec<BasicBlock> { let mut r = Vec::new(); for k in l.bbs().keys() { r.push(*k); } r }
  pub fn insts(l: &Layout, b: BasicBlock) -> Vec<Value> { let mut r = Vec::new(); for k in l.bbs().node(&b).unwrap().insts().keys() { r.push(*k); } r }
}
pub mod front {
  use super::*;
  use koopa::front::ast::*;
  use koopa::front::builder::Builder;
  use koopa::front::lexer::Lexer;
  use koopa::front::parser::Parser;
  use koopa::front::span::{Error, FileType, Pos, Span};
  use koopa::front::token::{Keyword, Token, TokenKind};
  pub fn generate_program(d: Driver<Sink>) -> Result<Program, Error> { d.generate_program() }
  pub fn driver_new(f: FileType) -> Driver<Sink> { Driver::new(f, Sink) }
  pub fn from_path(p: std::path::PathBuf) -> io::Result<Driver<std::fs::File>> { Driver::from_path(p) }
  pub fn from_stdin(p: io::Stdin) -> Driver<io::Stdin> { p.into() }
  pub fn from_string(p: String) -> Driver<io::Cursor<String>> { p.into() }
  pub fn from_str(p: &str) -> Driver<io::Cursor<&str>> { p.into() }
  pub fn lexer_new() -> Lexer<Sink> { Lexer::new(Sink) }
  pub fn next_token(l: &mut Lexer<Sink>) -> Result<Token, Error> { l.next_token() }
  pub fn parser_new(l: Lexer<Sink>) -> Result<Parser<Sink>, Error> { Parser::new(l) }
  pub fn parse_next(p: &mut Parser<Sink>) -> Result<AstBox, Error> { p.parse_next() }
  pub fn token_new(s: Span, k: TokenKind) -> Token { Token::new(s, k) }
  pub fn token_display(k: &TokenKind, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(k, f) }
  pub fn keyword_display(k: &Keyword, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(k, f) }
  pub fn builder_new() -> Builder { Builder::new() }
  pub fn build_on(b: &mut Builder, a: &AstBox) { b.build_on(a) }
  pub fn program(b: Builder) -> Program { b.program() }
  pub fn is_fatal(e: &Error) -> bool { e.is_fatal() }
  pub fn error_default() -> Error { Error::default() }
}
pub mod span {
  use super::*;
  use koopa::front::span::{Error, FileType, Pos, Span};
  pub fn new(p: Pos) -> Span { Span::new(p) }
  pub fn reset(f: FileType) { Span::reset(f) }
  pub fn log_raw_error(a: fmt::Arguments) -> Error { Span::log_raw_error(a) }
  pub fn log_raw_fatal_error(a: fmt::Arguments) -> Error { Span::log_raw_fatal_error(a) }
  pub fn log_raw_warning(a: fmt::Arguments) { Span::log_raw_warning(a) }
  pub fn log_global() { Span::log_global() }
  pub fn error_num() -> usize { Span::error_num() }
  pub fn warning_num() -> usize { Span::warning_num() }
  pub fn log_error(s: &Span, a: fmt::Arguments) -> Error { s.log_error(a) }
  pub fn log_fatal_error(s: &Span, a: fmt::Arguments) -> Error { s.log_fatal_error(a) }
  pub fn log_warning(s: &Span, a: fmt::Arguments) { s.log_warning(a) }
  pub fn into_updated(s: Span, p: Pos) -> Span { s.into_updated(p) }
  pub fn update(s: &mut Span, p: Pos) { s.update(p) }
  pub fn into_updated_span(s: Span, p: Span) -> Span { s.into_updated_span(p) }
  pub fn update_span(s: &mut Span, p: Span) { s.update_span(p) }
  pub fn pos_display(s: &Pos, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(s, f) }
  pub fn debug(s: &Span, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(s, f) }
  pub fn same_line(s: &Span, p: &Span) -> bool { s.is_in_same_line_as(p) }
  pub fn pos_new() -> Pos { Pos::new() }
  pub fn pos_update(p: &mut Pos, c: char) { p.update(c) }
}
pub mod disp {
  use super::*;
  pub fn binop(o: &BinaryOp, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(o, f) }
  pub fn ty(o: &Type, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(o, f) }
}
pub mod opt {
  use super::*;
  pub fn run(m: &mut PassManager, p: &mut Program) { m.run_passes(p) }
  pub fn new() -> PassManager { PassManager::new() }
  pub fn default() -> PassManager { PassManager::default() }
  pub fn from(v: Vec<Pass>) -> PassManager { PassManager::from(v) }
  pub fn register(m: &mut PassManager, p: Pass) { m.register(p) }
}
