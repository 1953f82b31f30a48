//! rustc driver (RUSTC_WORKSPACE_WRAPPER): compiles the crate as usual (check mode) and, for the
//! crates named in MIRDUMP_CRATES, writes every reachable monomorphic MIR body, type, static and
//! layout as JSON to $MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------- tiny JSON ----------
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
  fn w(&self, o: &mut String) {
    match self {
      J::N => o.push_str("null"),
      J::B(b) => o.push_str(if *b { "true" } else { "false" }),
      J::I(i) => { let _ = write!(o, "{i}"); }
      J::S(s) => esc(s, o),
      J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
      J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
    }
  }
}
fn esc(s: &str, o: &mut String) {
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
      c => o.push(c),
    }
  }
  o.push('"');
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn u(x: usize) -> J { J::I(x as i128) }

// ---------- dumper ----------
#[derive(Default)]
struct D {
  ty_ids: HashMap<Ty, usize>,
  ty_out: Vec<Option<J>>,
  ty_queue: VecDeque<Ty>,
  next_fn: Option<FnDef>,
  iterators: HashSet<AdtDef>,
  seen: HashSet<String>,
  fn_queue: VecDeque<Instance>,
  fns: Vec<J>,
  statics_seen: HashSet<String>,
  statics: Vec<J>,
  prefixes: Vec<String>,
  stop: Vec<String>,
}

/// the place in the source that a macro-expanded construct was written at
fn written(sp: Span) -> Span {
  rustc_middle::ty::tls::with(|tcx| rustc_internal::stable(rustc_internal::internal(tcx, sp).source_callsite()))
}

fn span_j(sp: Span) -> J {
  let l = sp.get_lines();
  s(format!("{}:{}", sp.get_filename(), l.start_line))
}

impl D {
  fn ty(&mut self, t: Ty) -> J { u(self.ty_id(t)) }
  fn ty_id(&mut self, t: Ty) -> usize {
    if let Some(i) = self.ty_ids.get(&t) { return *i; }
    let i = self.ty_out.len();
    self.ty_ids.insert(t, i);
    self.ty_out.push(None);
    self.ty_queue.push_back(t);
    i
  }
  fn generic_args(&mut self, a: &GenericArgs) -> J {
    J::A(a.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(self.ty(*t)), _ => None }).collect())
  }
  fn layout(&mut self, t: Ty) -> J {
    let Ok(l) = t.layout() else { return J::N };
    let sh = l.shape();
    let offs = match &sh.fields {
      FieldsShape::Arbitrary { offsets, .. } => J::A(offsets.iter().map(|o| u(o.bytes())).collect()),
      FieldsShape::Union(_) => s("union"),
      _ => J::N,
    };
    let (vars, tag) = match &sh.variants {
      VariantsShape::Multiple { tag, tag_encoding, variants, .. } => (
        J::A(variants.iter().map(|v| J::A(v.offsets.iter().map(|o| u(o.bytes())).collect())).collect()),
        s(format!("{:?} {:?}", tag_encoding, tag)),
      ),
      _ => (J::N, J::N),
    };
    J::O(vec![("size", u(sh.size.bytes())), ("align", J::I(sh.abi_align as i128)), ("offsets", offs), ("variants", vars), ("tag", tag)])
  }
  fn ty_body(&mut self, t: Ty) -> J {
    let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
    let TyKind::RigidTy(k) = t.kind() else { o.push(("k", s("other"))); return J::O(o) };
    match k {
      RigidTy::Bool => o.push(("k", s("bool"))),
      RigidTy::Char => o.push(("k", s("char"))),
      RigidTy::Int(i) => { o.push(("k", s("int"))); o.push(("n", s(format!("{:?}", i)))); }
      RigidTy::Uint(i) => { o.push(("k", s("uint"))); o.push(("n", s(format!("{:?}", i)))); }
      RigidTy::Float(_) => o.push(("k", s("float"))),
      RigidTy::Str => o.push(("k", s("str"))),
      RigidTy::Never => o.push(("k", s("never"))),
      RigidTy::Array(t, n) => {
        o.push(("k", s("array"))); let e = self.ty(t); o.push(("e", e));
        o.push(("len", n.eval_target_usize().map(|x| u(x as usize)).unwrap_or(J::N)));
      }
      RigidTy::Slice(t) => { o.push(("k", s("slice"))); let e = self.ty(t); o.push(("e", e)); }
      RigidTy::RawPtr(t, m) => { o.push(("k", s("ptr"))); let e = self.ty(t); o.push(("e", e)); o.push(("m", J::B(m == Mutability::Mut))); }
      RigidTy::Ref(_, t, m) => { o.push(("k", s("ref"))); let e = self.ty(t); o.push(("e", e)); o.push(("m", J::B(m == Mutability::Mut))); }
      RigidTy::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.iter().map(|t| self.ty(*t)).collect(); o.push(("fs", J::A(v))); }
      RigidTy::FnDef(d, a) => {
        o.push(("k", s("fndef"))); o.push(("path", s(d.name())));
        if let Ok(i) = Instance::resolve(d, &a) { let c = self.callee(i, Some(&d), Some(&a)); o.push(("callee", c)); }
      }
      RigidTy::FnPtr(sig) => {
        o.push(("k", s("fnptr")));
        let sig = sig.value; let v = sig.inputs_and_output.iter().map(|t| self.ty(*t)).collect();
        o.push(("io", J::A(v)));
      }
      RigidTy::Closure(d, a) => {
        o.push(("k", s("closure"))); o.push(("path", s(d.name())));
        for (kind, n) in [(ClosureKind::Fn, "Fn"), (ClosureKind::FnMut, "FnMut"), (ClosureKind::FnOnce, "FnOnce")] {
          if let Ok(i) = Instance::resolve_closure(d, &a, kind) {
            if i.kind == InstanceKind::Item {
              let c = self.callee(i, None, None);
              o.push(("ck", s(n))); o.push(("callee", c)); break;
            }
          }
        }
        // upvar tuple type is the last generic arg
        if let Some(GenericArgKind::Type(t)) = a.0.last() { let e = self.ty(*t); o.push(("up", e)); }
      }
      RigidTy::Adt(d, a) => {
        o.push(("k", s("adt"))); o.push(("name", s(d.name())));
        o.push(("ak", s(format!("{:?}", d.kind()))));
        o.push(("crate", s(d.krate().name)));
        let ga = self.generic_args(&a); o.push(("args", ga));
        if d.is_box() { o.push(("box", J::B(true))); }
        // the `next` of a user-defined iterator, which may be called from std only
        if let (Some(next), true) = (self.next_fn, ["koopa", "roots", "key_node_list"].contains(&d.krate().name.as_str())) {
          if self.iterators.contains(&d) {
            let ga = GenericArgs(vec![GenericArgKind::Type(t)]);
            if let Ok(i) = Instance::resolve(next, &ga) { let c = self.callee(i, Some(&next), Some(&ga)); o.push(("next", c)); }
          }
        }
        let nm = d.name();
        let local = !(nm.starts_with("std::") || nm.starts_with("core::") || nm.starts_with("alloc::") || nm.starts_with("hashbrown"));
        let expand = local || d.kind() == AdtKind::Enum || nm.contains("::ops::Range") || nm.contains("cmp::Reverse");
        if expand {
          let mut vs = vec![];
          for v in d.variants_iter() {
            let discr = if d.kind() == AdtKind::Enum { J::I(d.discriminant_for_variant(v.idx()).val as i128) } else { J::N };
            let fs = v.fields().into_iter().map(|f| { let ft = f.ty_with_args(&a); let ft = self.ty(ft); J::A(vec![s(f.name.clone()), ft]) }).collect();
            vs.push(J::O(vec![("n", s(v.name())), ("d", discr), ("fs", J::A(fs))]));
          }
          o.push(("vs", J::A(vs)));
        }
        if local { let l = self.layout(t); o.push(("layout", l)); o.push(("span", span_j(d.span()))); o.push(("repr", s(format!("{:?}", d.repr())))); }
      }
      RigidTy::Dynamic(ps, _) => {
        o.push(("k", s("dyn")));
        o.push(("preds", J::A(ps.iter().map(|p| s(format!("{:?}", p.value))).collect())));
      }
      other => { o.push(("k", s("other"))); o.push(("dbg", s(format!("{:?}", other)))); }
    }
    J::O(o)
  }

  fn want(&self, i: &Instance) -> bool {
    if i.kind == InstanceKind::Intrinsic || matches!(i.kind, InstanceKind::Virtual { .. }) { return false; }
    let kr = i.def.krate().name;
    if !["std", "core", "alloc"].contains(&kr.as_str()) {
      return ["koopa", "roots", "key_node_list"].contains(&kr.as_str());
    }
    let n = i.name();
    let dn = i.def.name();
    if self.stop.iter().any(|p| n.starts_with(p.as_str()) || dn.starts_with(p.as_str())) { return false; }
    self.prefixes.iter().any(|p| n.starts_with(p.as_str()) || dn.starts_with(p.as_str()))
  }
  fn callee(&mut self, i: Instance, fd: Option<&FnDef>, fa: Option<&GenericArgs>) -> J {
    let key = i.mangled_name();
    let has = i.kind != InstanceKind::Intrinsic && !matches!(i.kind, InstanceKind::Virtual { .. }) && i.has_body();
    let w = has && self.want(&i);
    if w && self.seen.insert(key.clone()) { self.fn_queue.push_back(i); }
    let mut o = vec![("key", s(key)), ("path", s(i.def.name())), ("name", s(i.name())), ("kind", s(format!("{:?}", i.kind))),
      ("crate", s(i.def.krate().name)), ("body", J::B(w))];
    if let Some(f) = fd { o.push(("decl", s(f.name()))); }
    if let Some(a) = fa { let ga = self.generic_args(a); o.push(("targs", ga)); }
    J::O(o)
  }

  // ----- constants -----
  fn decode(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> J {
    if depth > 40 { return s("<deep>"); }
    let TyKind::RigidTy(k) = t.kind() else { return J::N };
    let rd = |n: usize| -> Option<u128> { if off + n > al.bytes.len() { return None; } al.read_partial_uint(off..off + n).ok() };
    let prov = |o: usize| al.provenance.ptrs.iter().find(|(x, _)| *x == o).map(|(_, p)| p.0);
    match k {
      RigidTy::Bool => J::O(vec![("b", J::B(rd(1).unwrap_or(0) != 0))]),
      RigidTy::Char => J::O(vec![("ch", J::I(rd(4).unwrap_or(0) as i128))]),
      RigidTy::Int(i) => {
        let n = i.num_bytes();
        match rd(n) { Some(v) => { let sh = 128 - 8 * n as u32; J::O(vec![("i", J::I(((v << sh) as i128) >> sh))]) } None => J::N }
      }
      RigidTy::Uint(i) => match rd(i.num_bytes()) { Some(v) => J::O(vec![("i", J::I(v as i128))]), None => J::N },
      RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
        let addr = rd(8).unwrap_or(0) as usize;
        let Some(id) = prov(off) else { return J::O(vec![("addr", u(addr))]) };
        match GlobalAlloc::from(id) {
          GlobalAlloc::Memory(m) => {
            let TyKind::RigidTy(pk) = p.kind() else { return J::N };
            match pk {
              RigidTy::Str => {
                let len = al.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                let b: Vec<u8> = m.bytes[addr..addr + len].iter().map(|x| x.unwrap_or(0)).collect();
                J::O(vec![("str", s(String::from_utf8_lossy(&b).into_owned()))])
              }
              RigidTy::Slice(e) => {
                let len = al.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v = (0..len).map(|i| self.decode(&m, addr + i * sz, e, depth + 1)).collect();
                J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))])
              }
              RigidTy::Dynamic(..) => J::O(vec![("dynref", J::B(true))]),
              _ => { let x = self.decode(&m, addr, p, depth + 1); J::O(vec![("ref", x)]) }
            }
          }
          GlobalAlloc::Static(sd) => { self.stat(sd); J::O(vec![("static", s(sd.name()))]) }
          GlobalAlloc::Function(i) => { let c = self.callee(i, None, None); J::O(vec![("fn", c)]) }
          _ => J::O(vec![("opaque", s("galloc"))]),
        }
      }
      RigidTy::FnPtr(_) => match prov(off).map(GlobalAlloc::from) {
        Some(GlobalAlloc::Function(i)) => { let c = self.callee(i, None, None); J::O(vec![("fn", c)]) }
        _ => J::O(vec![("opaque", s("fnptr"))]),
      },
      RigidTy::Array(e, n) => {
        let len = n.eval_target_usize().unwrap_or(0) as usize;
        let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
        if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = e.kind() {
          let b = (0..len).map(|i| u(al.bytes.get(off + i).copied().flatten().unwrap_or(0) as usize)).collect();
          return J::O(vec![("bytes", J::A(b))]);
        }
        let v = (0..len).map(|i| self.decode(al, off + i * sz, e, depth + 1)).collect();
        J::O(vec![("arr", J::A(v))])
      }
      RigidTy::Tuple(ts) => {
        if ts.is_empty() { return J::O(vec![("tuple", J::A(vec![]))]); }
        let Ok(l) = t.layout() else { return J::N };
        let FieldsShape::Arbitrary { offsets, .. } = l.shape().fields else { return J::N };
        let v = ts.iter().zip(offsets).map(|(t, o)| self.decode(al, off + o.bytes(), *t, depth + 1)).collect();
        J::O(vec![("tuple", J::A(v))])
      }
      RigidTy::FnDef(..) => { let x = self.ty(t); J::O(vec![("zst", x)]) }
      RigidTy::Closure(..) => { let x = self.ty(t); J::O(vec![("zst", x)]) }
      RigidTy::Adt(d, a) => {
        let Ok(l) = t.layout() else { return J::N };
        let sh = l.shape();
        let vi: usize = match &sh.variants {
          VariantsShape::Empty => return J::O(vec![("opaque", s("empty"))]),
          VariantsShape::Single { index } => index.to_index(),
          VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
            let FieldsShape::Arbitrary { offsets, .. } = &sh.fields else { return J::N };
            let to = off + offsets[*tag_field].bytes();
            let n = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
            let has_prov = prov(to).is_some();
            let tv = if has_prov { None } else { al.read_partial_uint(to..to + n).ok() };
            match tag_encoding {
              TagEncoding::Direct => {
                let Some(tv) = tv else { return J::N };
                let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                match d.variants_iter().find(|v| d.discriminant_for_variant(v.idx()).val & mask == tv) { Some(v) => v.idx().to_index(), None => return J::N }
              }
              TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                match tv {
                  None => untagged_variant.to_index(),
                  Some(tv) => {
                    let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                    let rel = tv.wrapping_sub(*niche_start) & mask;
                    let lo = niche_variants.start().to_index() as u128; let hi = niche_variants.end().to_index() as u128;
                    if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                  }
                }
              }
            }
          }
        };
        let offsets: Vec<usize> = match &sh.variants {
          VariantsShape::Multiple { variants, .. } => variants[vi].offsets.iter().map(|o| o.bytes()).collect(),
          _ => match &sh.fields { FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] },
        };
        let v = d.variants_iter().nth(vi).unwrap();
        let mut fs = vec![];
        for (f, o) in v.fields().into_iter().zip(offsets) { let ft = f.ty_with_args(&a); fs.push(self.decode(al, off + o, ft, depth + 1)); }
        let ti = self.ty(t);
        J::O(vec![("adt", ti), ("v", u(vi)), ("fs", J::A(fs))])
      }
      RigidTy::Pat(base, _) => self.decode(al, off, base, depth + 1),
      _ => J::O(vec![("opaque", s(format!("{}", t)))]),
    }
  }
  fn stat(&mut self, sd: StaticDef) {
    let n = sd.name();
    if !self.statics_seen.insert(n.clone()) { return; }
    let kr = sd.krate().name;
    let t = sd.ty();
    let val = if ["koopa", "roots"].contains(&kr.as_str()) {
      match sd.eval_initializer() { Ok(al) => self.decode(&al, 0, t, 0), Err(_) => J::N }
    } else { J::N };
    let ti = self.ty(t);
    self.statics.push(J::O(vec![("name", s(n)), ("ty", ti), ("val", val), ("span", span_j(sd.span()))]));
  }
  fn konst(&mut self, c: &ConstOperand) -> J {
    let t = c.const_.ty();
    let ti = self.ty(t);
    let val = match c.const_.kind() {
      ConstantKind::ZeroSized => J::O(vec![("zst", u(self.ty_id(t)))]),
      ConstantKind::Allocated(al) => { let al = al.clone(); self.decode(&al, 0, t, 0) }
      ConstantKind::Ty(tc) => match tc.kind() {
        TyConstKind::Value(vt, al) => { let (vt, al) = (*vt, al.clone()); self.decode(&al, 0, vt, 0) }
        TyConstKind::ZSTValue(_) => J::O(vec![("zst", u(self.ty_id(t)))]),
        _ => J::N,
      },
      ConstantKind::Unevaluated(uc) => J::O(vec![("uneval", s(uc.def.name()))]),
      ConstantKind::Param(p) => J::O(vec![("param", s(p.name.clone()))]),
    };
    J::O(vec![("t", ti), ("v", val)])
  }

  // ----- bodies -----
  fn place(&mut self, p: &Place) -> J {
    let mut v = vec![];
    for e in &p.projection {
      v.push(match e {
        ProjectionElem::Deref => s("*"),
        ProjectionElem::Field(i, t) => J::A(vec![s("f"), u(*i), self.ty(*t)]),
        ProjectionElem::Index(l) => J::A(vec![s("i"), u(*l)]),
        ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), u(*offset as usize), J::B(*from_end)]),
        ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), u(*from as usize), u(*to as usize), J::B(*from_end)]),
        ProjectionElem::Downcast(v) => J::A(vec![s("d"), u(v.to_index())]),
        ProjectionElem::OpaqueCast(t) => J::A(vec![s("oc"), self.ty(*t)]),
      });
    }
    J::A(vec![u(p.local), J::A(v)])
  }
  fn op(&mut self, o: &Operand) -> J {
    match o {
      Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
      Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
      Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
      Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
    }
  }
  fn ops(&mut self, v: &[Operand]) -> J { J::A(v.iter().map(|o| self.op(o)).collect()) }
  fn rvalue(&mut self, r: &Rvalue) -> J {
    match r {
      Rvalue::AddressOf(_, p) => J::A(vec![s("ref"), self.place(p)]),
      Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p), s(format!("{:?}", bk).chars().take(3).collect::<String>())]),
      Rvalue::Reborrow(_, _, p) => J::A(vec![s("ref"), self.place(p)]),
      Rvalue::Aggregate(k, os) => {
        let os = self.ops(os);
        match k {
          AggregateKind::Array(t) => J::A(vec![s("agg"), s("array"), self.ty(*t), os]),
          AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::N, os]),
          AggregateKind::Adt(d, v, a, _, act) => {
            let t = d.ty_with_args(a);
            J::A(vec![s("agg"), s("adt"), self.ty(t), os, u(v.to_index()), act.map(u).unwrap_or(J::N)])
          }
          AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); J::A(vec![s("agg"), s("closure"), self.ty(t), os]) }
          AggregateKind::RawPtr(t, _) => J::A(vec![s("agg"), s("rawptr"), self.ty(*t), os]),
          _ => J::A(vec![s("agg"), s("other"), J::N, os]),
        }
      }
      Rvalue::BinaryOp(b, x, y) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(x), self.op(y)]),
      Rvalue::CheckedBinaryOp(b, x, y) => J::A(vec![s("cbin"), s(format!("{:?}", b)), self.op(x), self.op(y)]),
      Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o), self.ty(*t)]),
      Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
      Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
      Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
      Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.op(o), n.eval_target_usize().map(|x| u(x as usize)).unwrap_or(J::N)]),
      Rvalue::ThreadLocalRef(c) => J::A(vec![s("tls"), s(c.name())]),
      Rvalue::UnaryOp(o, x) => J::A(vec![s("un"), s(format!("{:?}", o)), self.op(x)]),
      Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o)]),
    }
  }
  fn body(&mut self, i: Instance) {
    let Some(b) = i.body() else { return };
    let locals: Vec<J> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
    let mut blocks = vec![];
    let fname = b.span.get_filename();
    for bb in &b.blocks {
      let mut st = vec![];
      for x in &bb.statements {
        match &x.kind {
          StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r); let l = written(x.source_info.span).get_lines().start_line; st.push(J::A(vec![s("="), p, r, u(l)])); }
          StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::A(vec![s("sd"), p, u(variant_index.to_index())])); }
          StatementKind::Intrinsic(n) => st.push(J::A(vec![s("intr"), s(format!("{:?}", n).chars().take(40).collect::<String>())])),
          StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), u(*l)])),
          _ => {}
        }
      }
      let tspan = written(bb.terminator.source_info.span);
      let line = u(tspan.get_lines().start_line);
      let tf = tspan.get_filename();
      let t = match &bb.terminator.kind {
        TerminatorKind::Goto { target } => J::A(vec![s("goto"), u(*target)]),
        TerminatorKind::SwitchInt { discr, targets } => {
          let d = self.op(discr);
          let br = targets.branches().map(|(v, t)| J::A(vec![J::I(v as i128), u(t)])).collect();
          let dt = discr.ty(b.locals()).unwrap(); let dt = self.ty(dt);
          J::A(vec![s("switch"), d, J::A(br), u(targets.otherwise()), dt])
        }
        TerminatorKind::Resume => J::A(vec![s("resume")]),
        TerminatorKind::Abort => J::A(vec![s("abort")]),
        TerminatorKind::Return => J::A(vec![s("ret")]),
        TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
        TerminatorKind::Drop { place, target, .. } => { let t = place.ty(b.locals()).unwrap(); let t = self.ty(t); J::A(vec![s("drop"), self.place(place), u(*target), t]) }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let a = self.ops(args);
          let d = self.place(destination);
          let dt = destination.ty(b.locals()).unwrap(); let dt = self.ty(dt);
          let f = match func.ty(b.locals()).map(|t| t.kind()) {
            Ok(TyKind::RigidTy(RigidTy::FnDef(fd, ga))) => match Instance::resolve(fd, &ga) {
              Ok(i) => self.callee(i, Some(&fd), Some(&ga)),
              Err(_) => { let g = self.generic_args(&ga); J::O(vec![("decl", s(fd.name())), ("path", s(fd.name())), ("name", s(fd.name())), ("kind", s("unresolved")), ("body", J::B(false)), ("targs", g)]) }
            },
            _ => J::O(vec![("kind", s("indirect")), ("op", self.op(func)), ("body", J::B(false))]),
          };
          J::A(vec![s("call"), f, a, d, target.map(u).unwrap_or(J::N), dt])
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let m = match msg {
            AssertMessage::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.op(len), self.op(index)]),
            AssertMessage::Overflow(op, x, y) => J::A(vec![s("overflow"), s(format!("{:?}", op)), self.op(x), self.op(y)]),
            AssertMessage::OverflowNeg(x) => J::A(vec![s("overflow"), s("Neg"), self.op(x)]),
            AssertMessage::DivisionByZero(x) => J::A(vec![s("divzero"), self.op(x)]),
            AssertMessage::RemainderByZero(x) => J::A(vec![s("remzero"), self.op(x)]),
            m => J::A(vec![s("other"), s(format!("{:?}", m).chars().take(60).collect::<String>())]),
          };
          J::A(vec![s("assert"), self.op(cond), J::B(*expected), m, u(*target)])
        }
        TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
      };
      blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("l", line), ("lf", if tf == fname { J::N } else { s(tf) })]));
    }
    let mut names = vec![];
    for v in &b.var_debug_info {
      if let Some(l) = v.local() { names.push(J::A(vec![u(l), s(v.name.clone())])); }
    }
    let derived = rustc_middle::ty::tls::with(|tcx| {
      let did = rustc_internal::internal(tcx, i.def.def_id());
      tcx.impl_of_assoc(did).map(|im| tcx.is_automatically_derived(im)).unwrap_or(false)
    });
    let (exported, abi) = rustc_middle::ty::tls::with(|tcx| {
      let did = rustc_internal::internal(tcx, i.def.def_id());
      if !tcx.def_kind(did).is_fn_like() || tcx.is_closure_like(did) { return (false, String::new()); }
      (tcx.codegen_fn_attrs(did).contains_extern_indicator(), format!("{:?}", tcx.fn_sig(did).skip_binder().abi()))
    });
    self.fns.push(J::O(vec![
      ("derived", J::B(derived)), ("exported", J::B(exported)), ("abi", s(abi)),
      ("key", s(i.mangled_name())), ("name", s(i.name())), ("path", s(i.def.name())), ("crate", s(i.def.krate().name)),
      ("kind", s(format!("{:?}", i.kind))), ("span", span_j(b.span)), ("argc", u(b.arg_locals().len())), ("locals", J::A(locals)),
      ("spread", b.spread_arg().map(|x| u(x)).unwrap_or(J::N)), ("names", J::A(names)), ("blocks", J::A(blocks)),
    ]));
  }
  fn run(&mut self) {
    loop {
      if let Some(i) = self.fn_queue.pop_front() { self.body(i); continue; }
      if let Some(t) = self.ty_queue.pop_front() { let id = self.ty_ids[&t]; let b = self.ty_body(t); self.ty_out[id] = Some(b); continue; }
      break;
    }
  }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
  let mut d = D::default();
  let read = |v: &str| std::env::var(v).unwrap_or_default().split(';').filter(|x| !x.is_empty()).map(String::from).collect::<Vec<_>>();
  d.prefixes = read("MIRDUMP_STD");
  d.stop = read("MIRDUMP_STOP");
  if let Some(next) = tcx.lang_items().next_fn() {
    d.next_fn = Some(FnDef(rustc_internal::stable(next)));
    for im in tcx.all_impls(tcx.parent(next)) {
      if let rustc_middle::ty::TyKind::Adt(a, _) = tcx.type_of(im).instantiate_identity().skip_norm_wip().kind() { d.iterators.insert(AdtDef(rustc_internal::stable(a.did()))); }
    }
  }
  let mut items = vec![];
  for it in rustc_public::all_local_items() {
    let generic = it.requires_monomorphization();
    let k = format!("{:?}", it.kind());
    items.push(J::O(vec![("name", s(it.name())), ("kind", s(k.clone())), ("generic", J::B(generic)), ("span", span_j(it.span()))]));
    if generic { continue; }
    if let Ok(sd) = StaticDef::try_from(it) { d.stat(sd); continue; }
    if let rustc_public::ItemKind::Fn = it.kind() {
      if let Ok(i) = Instance::try_from(it) {
        if i.has_body() && d.seen.insert(i.mangled_name()) { d.fn_queue.push_back(i); }
      }
    }
  }
  for c in rustc_public::find_crates("koopa").into_iter().filter(|c| !c.is_local) {
    for f in c.fn_defs() {
      let it = rustc_public::CrateItem(f.def_id());
      let generic = it.requires_monomorphization();
      items.push(J::O(vec![("name", s(f.name())), ("kind", s("ExtFn")), ("generic", J::B(generic)), ("span", span_j(f.span()))]));
      if generic { continue; }
      if let Ok(i) = Instance::try_from(it) {
        if i.has_body() && d.seen.insert(i.mangled_name()) { d.fn_queue.push_back(i); }
      }
    }
    for sd in c.statics() { d.stat(sd); }
    for a in c.adts() { let t = a.ty(); if t.layout().is_ok() { d.ty_id(t); } }
  }
  // all ADTs of the local crate that need no type arguments
  for a in rustc_public::local_crate().adts() {
    let t = a.ty();
    if let Ok(_) = t.layout() { d.ty_id(t); }
  }
  // exported (no_mangle) functions with their signatures
  let mut exported = vec![];
  for f in rustc_public::local_crate().fn_defs() {
    let did = rustc_internal::internal(tcx, f.def_id());
    let attrs = tcx.codegen_fn_attrs(did);
    if attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE) || attrs.symbol_name.is_some() {
      let sig = f.fn_sig().value;
      let io = sig.inputs_and_output.iter().map(|t| d.ty(*t)).collect();
      exported.push(J::O(vec![("name", s(f.name())), ("sym", s(attrs.symbol_name.map(|x| x.to_string()).unwrap_or_else(|| f.trimmed_name()))),
        ("abi", s(format!("{:?}", sig.abi))), ("io", J::A(io)), ("span", span_j(f.span()))]));
    }
  }
  d.run();
  let tys = std::mem::take(&mut d.ty_out).into_iter().map(|x| x.unwrap_or(J::N)).collect();
  let j = J::O(vec![("crate", s(rustc_public::local_crate().name)), ("types", J::A(tys)), ("fns", J::A(std::mem::take(&mut d.fns))),
    ("statics", J::A(std::mem::take(&mut d.statics))), ("items", J::A(items)), ("exported", J::A(exported))]);
  let mut o = String::new();
  j.w(&mut o);
  std::fs::write(out, o).expect("write dump");
}

struct Cb { out: Option<String> }
impl Callbacks for Cb {
  fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    if let Some(o) = &self.out { let o = o.clone(); rustc_internal::run(tcx, || dump(tcx, &o)).unwrap(); }
    Compilation::Continue
  }
}

fn main() {
  let mut args: Vec<String> = std::env::args().collect();
  if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
  let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
  let name = arg("--crate-name").unwrap_or_default();
  let src = args.iter().find(|a| a.ends_with(".rs")).cloned().unwrap_or_default();
  let dir = std::env::var("MIRDUMP_OUT").ok();
  let mut out = None;
  if let Some(dir) = dir {
    if !name.is_empty() && name != "___" && !name.starts_with("build_script") {
      let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or(name.clone());
      let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
      if !src.is_empty() && src != "-" && want.split(',').any(|w| w == pkg) { out = Some(format!("{dir}/{pkg}.json")); }
    }
  }
  rustc_driver::install_ice_hook("", |_| ());
  rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
