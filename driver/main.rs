// rustc_private driver: dumps type-checked MIR of every local function (and of everything it
// statically resolves to, within an allowlist) as JSON.  Used as RUSTC_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::{FieldsShape, VariantIdx, Variants, TagEncoding};
use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar, alloc_range};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, Unnormalized};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::U(i) => { let _ = write!(o, "{}", i); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    bodies: Vec<J>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String)>,
}

fn expand_adt(krate: &str) -> bool {
    !matches!(krate, "alloc" | "std" | "hashbrown")
}

// which external bodies are worth having
const DEFAULTED: &[&str] = &["for_each", "try_for_each", "fold", "try_fold", "all", "any", "find", "find_map", "position", "last", "nth", "min", "max", "sum", "reduce"];

fn allow_body(path: &str, krate: &str) -> bool {
    if path.contains("btree") && path.contains("Extend") && path.contains("::extend") { return true; }
    if krate == "nanoserde" || krate.starts_with("nsv_") { return true; }
    if krate != "core" && krate != "alloc" && krate != "std" { return true; }
    let p = path;
    const DENY: &[&str] = &["core::fmt", "core::num::flt2dec", "core::num::dec2flt", "core::num::imp", "core::panicking", "core::slice::sort", "core::str::pattern", "core::intrinsics", "core::unicode", "core::ptr", "core::alloc", "core::hash", "alloc::raw_vec", "alloc::alloc", "alloc::collections::btree", "std::sys", "std::io", "core::str::lossy", "core::str::validations","core::ub_checks", "core::panic"];
    for d in DENY { if p.contains(d) { return false; } }
    const ALLOW: &[&str] = &["core::option", "core::result", "core::ops", "core::iter", "core::convert", "core::cmp", "core::mem", "core::bool", "core::array", "core::num", "core::char", "core::default", "core::borrow", "core::clone", "core::slice", "core::str", "core::time", "core::tuple","core::internal_macros", "core::ascii",
        "alloc::borrow", "alloc::boxed", "alloc::vec", "alloc::string", "alloc::slice", "alloc::str", "alloc::collections::linked_list", "alloc::collections::vec_deque"];
    for d in ALLOW { if p.contains(d) { return true; } }
    false
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!(self.tcx.def_path_str(d))))
    }
    fn path_args(&self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!(self.tcx.def_path_str_with_args(d, a))))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!(format!("{}", t))))
    }
    fn norm<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, t: T) -> T {
        self.tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn cst(&self, c: ty::Const<'tcx>) -> J {
        if let Some(n) = c.try_to_target_usize(self.tcx) { return J::U(n as u128); }
        match c.kind() {
            ty::ConstKind::Param(p) => J::S(p.name.to_string()),
            ty::ConstKind::Value(v) => match v.try_to_leaf() { Some(l) => J::U(l.to_bits_unchecked()), None => J::N },
            _ => J::N,
        }
    }
    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                ty::GenericArgKind::Type(t) => { let i = self.ty(t); v.push(J::U(i as u128)); }
                ty::GenericArgKind::Const(c) => v.push(J::O(vec![("c", self.cst(c))])),
                ty::GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(J::N);
        self.tmap.insert(t, i);
        let name = self.tystr(t);
        let mut o = vec![("s", J::S(name))];
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => o.push(("k", s("prim"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("p", J::S(self.path(def.did()))));
                let ga = self.gargs(args);
                o.push(("a", ga));
                o.push(("ak", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let krate = self.tcx.crate_name(def.did().krate).to_string();
                if expand_adt(&krate) {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() { let d = def.discriminant_for_variant(self.tcx, vi); J::U(d.val) } else { J::U(0) };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or_else(|_| f.ty(self.tcx, args).skip_norm_wip());
                            let fi = self.ty(ft);
                            fs.push(J::A(vec![J::S(f.name.to_string()), J::U(fi as u128)]));
                        }
                        vs.push(J::O(vec![("n", J::S(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
                    }
                    o.push(("v", J::A(vs)));
                }
            }
            ty::Ref(_, x, m) => { o.push(("k", s("ref"))); let x = self.ty(x); o.push(("t", J::U(x as u128))); o.push(("m", J::B(m.is_mut()))); }
            ty::RawPtr(x, m) => { o.push(("k", s("ptr"))); let x = self.ty(x); o.push(("t", J::U(x as u128))); o.push(("m", J::B(m.is_mut()))); }
            ty::Slice(x) => { o.push(("k", s("slice"))); let x = self.ty(x); o.push(("t", J::U(x as u128))); }
            ty::Array(x, n) => { o.push(("k", s("array"))); let x = self.ty(x); o.push(("t", J::U(x as u128))); o.push(("n", self.cst(n))); }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.iter().map(|x| J::U(self.ty(x) as u128)).collect(); o.push(("ts", J::A(v))); }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("n", J::S(p.name.to_string()))); }
            ty::FnDef(d, args) => { o.push(("k", s("fndef"))); let c = self.callee(d, args.skip_binder()); o.push(("f", c)); }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("p", J::S(self.path_args(d, args))));
                let up = args.as_closure().upvar_tys();
                let v = up.iter().map(|x| J::U(self.ty(x) as u128)).collect();
                o.push(("up", J::A(v)));
                o.push(("ck", J::S(format!("{:?}", args.as_closure().kind()))));
                let inst = Instance { def: InstanceKind::Item(d), args };
                let k = self.enqueue(inst);
                o.push(("b", k));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }
    fn key(&self, inst: &Instance<'tcx>) -> String {
        self.path_args(inst.def_id(), inst.args)
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> J {
        if let InstanceKind::Item(d) = inst.def {
            let krate = self.tcx.crate_name(d.krate).to_string();
            let key = self.key(&inst);
            let path = self.path(d);
            if !self.tcx.is_mir_available(d) { return J::N; }
            if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) { return J::N; }
            if !d.is_local() && !allow_body(&path, &krate) { return J::N; }
            if self.seen.insert(key.clone()) {
                self.queue.push_back((inst, self.env, key.clone()));
            }
            return J::S(key);
        }
        J::N
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = vec![("p", J::S(self.path(d))), ("full", J::S(self.path_args(d, args)))];
        let ga = self.gargs(args);
        o.push(("a", ga));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let p = tcx.parent(d);
            o.push(("cp", J::S(self.path(p))));
            o.push(("cn", J::S(tcx.item_name(p).to_string())));
            return J::O(o);
        }
        o.push(("n", J::S(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", J::S(self.path(tr))));
            let st = self.ty(args.type_at(0));
            o.push(("self", J::U(st as u128)));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            // inherent impl: self type path
            let t = tcx.type_of(im).instantiate(tcx, args);
            let t = self.tcx.try_normalize_erasing_regions(self.env, t).ok();
            if let Some(t) = t { let st = self.ty(t); o.push(("iself", J::U(st as u128))); }
        }
        if tcx.intrinsic(d).is_some() { o.push(("intr", J::B(true))); }
        let a2 = self.norm(args);
        if let Some(x) = self.extender(d, a2) {
            let b = self.enqueue(x);
            o.push(("ext", b));
        }
        match Instance::try_resolve(tcx, self.env, d, a2) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::LlvmIntrinsic(_) => "llvm",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                    InstanceKind::Shim(_) => "shim",
                };
                o.push(("rk", s(kind)));
                if let InstanceKind::Item(rd) = inst.def {
                    o.push(("rp", J::S(self.path(rd))));
                    o.push(("rfull", J::S(self.key(&inst))));
                    // the overrides of the standard iterators do what the provided methods do
                    let plain = rd != d && !rd.is_local() && DEFAULTED.contains(&tcx.item_name(d).as_str())
                        && tcx.trait_of_assoc(d).map_or(false, |t| self.path(t).ends_with("::Iterator"))
                        && matches!(tcx.crate_name(rd.krate).as_str(), "core" | "alloc" | "std")
                        // its next() is written in terms of try_fold
                        && !matches!(a2.types().next().map(|t| t.kind()), Some(ty::Adt(ad, _)) if self.path(ad.did()).ends_with("GenericShunt"));
                    let b = self.enqueue(if plain { Instance { def: InstanceKind::Item(d), args: a2 } } else { inst });
                    o.push(("b", b));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        if tcx.impl_opt_trait_ref(im).is_some() { o.push(("impl", J::S(self.path(rd)))); }
                    }
                }
            }
            Ok(None) => o.push(("rk", s("unresolved"))),
            Err(_) => o.push(("rk", s("error"))),
        }
        J::O(o)
    }
    /// what puts the items of an iterator into a collection one by one, for calls that do so in bulk
    fn extender(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = self.path(tcx.trait_of_assoc(d)?);
        let n = tcx.item_name(d);
        let (to, from) = match (n.as_str(), a.len()) {
            ("collect", 2) if tr.ends_with("::Iterator") => (a.type_at(1), a.type_at(0)),
            ("from_iter", 3) if tr.ends_with("::FromIterator") => (a.type_at(0), a.type_at(2)),
            ("extend", 3) if tr.ends_with("::Extend") => (a.type_at(0), a.type_at(2)),
            _ => return None,
        };
        let ty::Adt(ad, ta) = to.kind() else { return None };
        // what a list does to its end is what happens to the end of a vector; the two kinds of map (set) insert alike
        let p = self.path(ad.did());
        let last = p.rsplit("::").next().unwrap_or("");
        if last == "String" {
            let item = match a.len() {
                3 => a.type_at(1),
                _ => {
                    let t = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator"))?;
                    let i = tcx.associated_items(t).in_definition_order().find(|i| i.is_type())?.def_id;
                    self.norm(Ty::new_projection(tcx, ty::IsRigid::No, i, [from]))
                }
            };
            if !item.is_char() { return None }
            let t = tcx.all_traits_including_private().find(|t| self.path(*t) == "alloc::string::SpecExtendChars")?;
            let im = tcx.all_impls(t).find(|i| matches!(tcx.impl_trait_ref(*i).instantiate_identity().skip_norm_wip().self_ty().kind(), ty::Param(_)))?;
            let m = tcx.associated_items(im).in_definition_order().next()?.def_id;
            return Some(Instance { def: InstanceKind::Item(m), args: tcx.mk_args(&[from.into()]) });
        }
        let (tr, own) = match last {
            "Vec" | "LinkedList" | "VecDeque" => ("alloc::collections::SpecExtend", "LinkedList"),
            "HashMap" | "BTreeMap" => ("core::iter::traits::collect::Extend", "BTreeMap"),
            _ => return None,
        };
        let t = tcx.all_traits_including_private().find(|t| self.path(*t) == tr)?;
        for im in tcx.all_impls(t) {
            let h = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let ty::Adt(sa, _) = h.self_ty().kind() else { continue };
            if tcx.item_name(sa.did()).as_str() != own { continue }
            let by_ref = match h.args.type_at(1).kind() {
                ty::Param(_) => false,
                ty::Tuple(ts) => ts.iter().any(|t| matches!(t.kind(), ty::Ref(..))),
                _ => true,
            };
            if by_ref { continue }
            let m = tcx.associated_items(im).in_definition_order().find(|i| i.name().as_str().ends_with("extend"))?.def_id;
            let g = tcx.generics_of(m);
            let types: Vec<Ty<'tcx>> = ta.types().collect();
            let mut args: Vec<ty::GenericArg<'tcx>> = Vec::new();
            let alloc = {
                let v = tcx.lang_items().global_alloc_ty()?;
                Ty::new_adt(tcx, tcx.adt_def(v), ty::List::empty())
            };
            for k in 0..g.count() {
                args.push(match g.param_at(k, tcx).name.as_str() {
                    "I" | "Iter" => from.into(),
                    "A" => alloc.into(),
                    "K" | "T" => (*types.get(0)?).into(),
                    "V" => (*types.get(1)?).into(),
                    _ => return None,
                });
            }
            return Some(Instance { def: InstanceKind::Item(m), args: tcx.mk_args(&args) });
        }
        if n.as_str() != "extend" { return None }
        let i = Instance::try_resolve(tcx, self.env, d, a).ok()??;
        match i.def { InstanceKind::Item(rd) if rd != d => Some(i), _ => None }
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::U(p.local.as_u32() as u128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), J::U(f.as_u32() as u128), J::U(t as u128)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::U(l.as_u32() as u128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), J::U(offset as u128), J::U(min_length as u128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), J::U(from as u128), J::U(to as u128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("v"), J::U(vi.as_u32() as u128)]),
                ProjectionElem::OpaqueCast(_) => s("oc"),
                _ => s("?"),
            });
        }
        J::A(v)
    }
    /// a static that never holds anything but its initial value
    fn constant_static(&self, d: DefId) -> bool {
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        !self.tcx.is_mutable_static(d) && !self.tcx.is_thread_local_static(d) && t.is_freeze(self.tcx, self.env)
    }
    /// the static a constant operand points at
    fn static_of(&mut self, v: ConstValue) -> Option<J> {
        let ConstValue::Scalar(Scalar::Ptr(p, _)) = v else { return None };
        let GlobalAlloc::Static(d) = self.tcx.global_alloc(p.provenance.alloc_id()) else { return None };
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let c = self.constant_static(d);
        let n = self.path(d);
        let t = self.ty(t);
        Some(J::O(vec![("n", J::S(n)), ("t", J::U(t as u128)), ("const", J::B(c))]))
    }
    fn read_mem(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> Option<J> {
        if depth > 12 { return None; }
        let tcx = self.tcx;
        let lay = tcx.layout_of(self.env.as_query_input(t)).ok()?;
        let size = lay.size.bytes();
        let alloc = match tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => {
                if !self.constant_static(d) { return None; }
                tcx.eval_static_initializer(d).ok()?
            }
            _ => return None,
        };
        let a = alloc.inner();
        let rd = |off: u64, size: u64| -> Option<u128> {
            let r: AllocRange = alloc_range(rustc_abi::Size::from_bytes(off), rustc_abi::Size::from_bytes(size));
            match a.read_scalar(&tcx, r, false).ok()? { Scalar::Int(i) => Some(i.to_bits_unchecked()), _ => None }
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Float(_) => { let b = rd(off, size)?; Some(J::O(vec![("int", J::U(b))])) }
            ty::Int(_) => {
                let b = rd(off, size)?;
                let sh = 128 - size * 8;
                Some(J::O(vec![("int", J::I(((b << sh) as i128) >> sh))]))
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                let ps = 8;
                let r = alloc_range(rustc_abi::Size::from_bytes(off), rustc_abi::Size::from_bytes(ps));
                let sc = a.read_scalar(&tcx, r, true).ok()?;
                let (pid, poff) = match sc { Scalar::Ptr(p, _) => { let (prov, o) = p.into_raw_parts(); (prov.alloc_id(), o.bytes()) }, _ => {
                    // dangling (zst)
                    return Some(J::O(vec![("dangling", J::B(true))]));
                } };
                match *x.kind() {
                    ty::Str => { let len = rd(off + 8, 8)? as u64; Some(J::O(vec![("str", self.read_bytes(pid, poff, len)?)])) }
                    ty::Slice(e) => {
                        let len = rd(off + 8, 8)? as u64;
                        if matches!(*e.kind(), ty::Uint(ty::UintTy::U8)) { return Some(J::O(vec![("bytes", self.read_bytes(pid, poff, len)?)])); }
                        let es = tcx.layout_of(self.env.as_query_input(e)).ok()?.size.bytes();
                        let mut v = vec![];
                        for i in 0..len { v.push(self.read_mem(pid, poff + i * es, e, depth + 1)?); }
                        Some(J::O(vec![("refslice", J::A(v))]))
                    }
                    _ => Some(J::O(vec![("ref", self.read_mem(pid, poff, x, depth + 1)?)])),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                if matches!(*e.kind(), ty::Uint(ty::UintTy::U8)) { return Some(J::O(vec![("bytearr", self.read_bytes(id, off, n)?)])); }
                let es = tcx.layout_of(self.env.as_query_input(e)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n { v.push(self.read_mem(id, off + i * es, e, depth + 1)?); }
                Some(J::O(vec![("arr", J::A(v))]))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.read_mem(id, off + fo, e, depth + 1)?);
                }
                Some(J::O(vec![("tup", J::A(v))]))
            }
            ty::Adt(def, args) if !def.is_union() => {
                let vi = match &lay.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = lay.fields.offset(tag_field.as_usize()).bytes();
                        let tsz = tag.size(&tcx).bytes();
                        let bits = rd(off + to, tsz);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let bits = bits?;
                                let mut r = None;
                                for (vi, d) in def.discriminants(tcx) {
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d.val & m == bits { r = Some(vi); }
                                }
                                r?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                match bits {
                                    None => *untagged_variant,
                                    Some(b) => {
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = b.wrapping_sub(*niche_start) & m;
                                        let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                        if rel <= cnt { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                                    }
                                }
                            }
                        }
                    }
                    Variants::Empty => return None,
                };
                let vl = lay.for_variant(&ty::layout::LayoutCx::new(tcx, self.env), vi);
                let mut v = vec![];
                for (i, f) in def.variant(vi).fields.iter().enumerate() {
                    let ft = self.tcx.try_normalize_erasing_regions(self.env, f.ty(tcx, args)).ok()?;
                    let fo = match &vl.fields { FieldsShape::Primitive => 0, fs => fs.offset(i).bytes() };
                    v.push(self.read_mem(id, off + fo, ft, depth + 1)?);
                }
                Some(J::O(vec![("adt", J::A(v)), ("vi", J::U(vi.as_u32() as u128))]))
            }
            _ => None,
        }
    }
    fn read_bytes(&self, id: AllocId, off: u64, len: u64) -> Option<J> {
        let alloc = match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => { if !self.constant_static(d) { return None; } self.tcx.eval_static_initializer(d).ok()? }
            _ => return None,
        };
        let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
        Some(J::A(b.iter().map(|x| J::U(*x as u128)).collect()))
    }
    fn constval(&mut self, cv: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match cv {
            ConstValue::ZeroSized => Some(J::O(vec![("zst", J::B(true))])),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let b = i.to_bits_unchecked();
                match *t.kind() {
                    ty::Int(_) => { let sh = 128 - i.size().bits(); Some(J::O(vec![("int", J::I(((b << sh) as i128) >> sh))])) }
                    ty::Bool | ty::Char | ty::Uint(_) | ty::Float(_) => Some(J::O(vec![("int", J::U(b))])),
                    ty::Adt(def, args) if def.is_enum() => {
                        let lay = tcx.layout_of(self.env.as_query_input(t)).ok()?;
                        if let Variants::Multiple { tag_encoding: TagEncoding::Direct, .. } = &lay.variants {
                            let m = if lay.size.bytes() >= 16 { u128::MAX } else { (1u128 << (lay.size.bytes() * 8)) - 1 };
                            for (vi, d) in def.discriminants(tcx) {
                                if d.val & m == b && def.variant(vi).fields.is_empty() { return Some(J::O(vec![("adt", J::A(vec![])), ("vi", J::U(vi.as_u32() as u128))])); }
                            }
                        }
                        if let Variants::Single { index } = &lay.variants {
                            if def.variant(*index).fields.is_empty() { return Some(J::O(vec![("adt", J::A(vec![])), ("vi", J::U(index.as_u32() as u128))])); }
                        }
                        if let Variants::Multiple { tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. } = &lay.variants {
                            let m = if lay.size.bytes() >= 16 { u128::MAX } else { (1u128 << (lay.size.bytes() * 8)) - 1 };
                            let rel = b.wrapping_sub(*niche_start) & m;
                            let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                            let vi = if rel <= cnt { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant };
                            let fs = &def.variant(vi).fields;
                            if fs.is_empty() { return Some(J::O(vec![("adt", J::A(vec![])), ("vi", J::U(vi.as_u32() as u128))])); }
                            if fs.len() == 1 {
                                let ft = self.tcx.try_normalize_erasing_regions(self.env, fs.iter().next().unwrap().ty(tcx, args)).ok()?;
                                let inner = self.constval(cv, ft)?;
                                return Some(J::O(vec![("adt", J::A(vec![inner])), ("vi", J::U(vi.as_u32() as u128))]));
                            }
                        }
                        None
                    }
                    ty::Adt(def, args) if def.is_struct() => {
                        let fs = &def.non_enum_variant().fields;
                        let mut v = vec![];
                        for f in fs.iter() {
                            let ft = self.tcx.try_normalize_erasing_regions(self.env, f.ty(tcx, args)).ok()?;
                            let l = tcx.layout_of(self.env.as_query_input(ft)).ok()?;
                            if l.is_zst() { v.push(J::O(vec![("zst", J::B(true))])); } else { v.push(self.constval(cv, ft)?); }
                        }
                        Some(J::O(vec![("adt", J::A(v)), ("vi", J::U(0))]))
                    }
                    _ => None,
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match *t.kind() {
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                        if let GlobalAlloc::Function { .. } = tcx.global_alloc(id) { return None; }
                        let inner = self.read_mem(id, off.bytes(), x, 0)?;
                        Some(J::O(vec![("ref", inner)]))
                    }
                    _ => None,
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.read_bytes(alloc_id, 0, meta)?;
                match *t.kind() {
                    ty::Ref(_, x, _) => match *x.kind() {
                        ty::Str => Some(J::O(vec![("str", b)])),
                        ty::Slice(e) if matches!(*e.kind(), ty::Uint(ty::UintTy::U8)) => Some(J::O(vec![("bytes", b)])),
                        _ => None,
                    },
                    _ => None,
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.read_mem(alloc_id, offset.bytes(), t, 0),
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(..) = *t.kind() {
            return J::O(vec![("t", J::U(ti as u128)), ("fn", J::B(true))]);
        }
        if let Const::Ty(_, cc) = c.const_ {
            if !matches!(cc.kind(), ty::ConstKind::Param(_)) {
                if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                    if let Some(j) = self.constval(v, t) {
                        return J::O(vec![("t", J::U(ti as u128)), ("v", j)]);
                    }
                }
            }
            return J::O(vec![("t", J::U(ti as u128)), ("tc", self.cst(cc))]);
        }
        let mut fallback: Vec<(&'static str, J)> = vec![("t", J::U(ti as u128))];
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                // emit promoted body
                let key = format!("{}#promoted{}", self.path_args(u.def, u.args), p.as_u32());
                if self.seen.insert(key.clone()) {
                    let pm = &self.tcx.promoted_mir(u.def)[p];
                    let inst = Instance { def: InstanceKind::Item(u.def), args: u.args };
                    let b = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, pm.clone()));
                    let j = self.body(&b, key.clone(), u.def, None);
                    self.bodies.push(j);
                }
                fallback.push(("prom", J::S(key)));
            } else {
                fallback.push(("un", J::S(self.path_args(u.def, u.args))));
                // associated / free constant that could not be evaluated: give its MIR
                let d = u.def;
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, d, u.args) {
                    if let InstanceKind::Item(rd) = inst.def {
                        if self.tcx.is_mir_available(rd) && !matches!(self.tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn) {
                            let key = format!("{}#const", self.path_args(rd, inst.args));
                            let generic = c.const_.eval(self.tcx, self.env, c.span).is_err();
                            if generic {
                                if self.seen.insert(key.clone()) {
                                    let pm = self.tcx.mir_for_ctfe(rd);
                                    let b = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, pm.clone()));
                                    let j = self.body(&b, key.clone(), rd, None);
                                    self.bodies.push(j);
                                }
                                fallback.push(("prom", J::S(key)));
                                fallback.push(("cbody", J::B(true)));
                            }
                        }
                    }
                }
            }
        }
        // a promoted constant of a default method: evaluating it would look for it in the method that overrides this one
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_some() && !matches!(Instance::try_resolve(self.tcx, self.env, u.def, u.args), Ok(Some(i)) if i.def_id() == u.def) {
                return J::O(fallback);
            }
        }
        if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
            if let Some(j) = self.static_of(v) {
                fallback.push(("static", j));
            }
            if let Some(j) = self.constval(v, t) {
                fallback.push(("v", j));
            }
        }
        J::O(fallback)
    }
    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("cp", self.place(p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c))]),
            other => J::O(vec![("rt", J::S(format!("{:?}", other)))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.operand(o), self.cst(*c)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), J::B(true), self.place(p)]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); J::A(vec![s("cast"), J::S(format!("{:?}", k)), self.operand(o), J::U(t as u128)]) }
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), J::S(format!("{:?}", b)), self.operand(&x.0), self.operand(&x.1)]),
            Rvalue::UnaryOp(u, x) => J::A(vec![s("un"), J::S(format!("{:?}", u)), self.operand(x)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(p))])]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(p))])]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("array"), J::U(t as u128)]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, *args);
                        let t = self.tcx.try_normalize_erasing_regions(self.env, t).unwrap_or_else(|_| self.tcx.type_of(*d).instantiate(self.tcx, *args).skip_norm_wip());
                        let ti = self.ty(t);
                        J::A(vec![s("adt"), J::U(ti as u128), J::U(vi.as_u32() as u128), match fi { Some(f) => J::U(f.as_u32() as u128), None => J::N }])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        J::A(vec![s("closure"), J::U(ti as u128)])
                    }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); J::A(vec![s("rawptr"), J::U(t as u128)]) }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(ops)])
            }
            Rvalue::ThreadLocalRef(d) => { let n = self.path(*d); J::A(vec![s("tls"), J::S(n)]) }
            other => J::A(vec![s("other"), J::S(format!("{:?}", other))]),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        J::S(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn body(&mut self, b: &Body<'tcx>, key: String, d: DefId, root: Option<J>) -> J {
        let mut locals = vec![];
        for l in b.local_decls.iter() { let t = self.ty(l.ty); locals.push(J::U(t as u128)); }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => { let r = self.rvalue(&a.1); st.push(J::A(vec![s("="), self.place(&a.0), r, self.span(x.source_info.span)])); }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![s("sd"), self.place(place), J::U(variant_index.as_u32() as u128)])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::U(l.as_u32() as u128)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), J::U(l.as_u32() as u128)])),
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intr"), J::S(format!("{:?}", i))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tb = |b: BasicBlock| J::U(b.as_u32() as u128);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), tb(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), tb(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), tb(*real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    let v = targets.iter().map(|(v, t)| J::A(vec![J::U(v), tb(t)])).collect();
                    J::A(vec![s("switch"), self.operand(discr), J::A(v), tb(targets.otherwise()), J::U(dti as u128)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => { let dt = place.ty(&b.local_decls, self.tcx).ty; let ti = self.ty(dt); J::A(vec![s("drop"), self.place(place), tb(*target), J::U(ti as u128)]) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(len), self.operand(index)]),
                        AssertKind::Overflow(op, a, bb) => (format!("Overflow({:?})", op), vec![self.operand(a), self.operand(bb)]),
                        AssertKind::OverflowNeg(a) => ("OverflowNeg".into(), vec![self.operand(a)]),
                        AssertKind::DivisionByZero(a) => ("DivisionByZero".into(), vec![self.operand(a)]),
                        AssertKind::RemainderByZero(a) => ("RemainderByZero".into(), vec![self.operand(a)]),
                        o => (format!("{:?}", o).chars().take(40).collect(), vec![]),
                    };
                    J::A(vec![s("assert"), self.operand(cond), J::B(*expected), J::S(k), J::A(ops), tb(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = match func {
                        Operand::Constant(c) => match *c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.callee(d, a.skip_binder()),
                            _ => J::O(vec![("ptr", self.operand(func))]),
                        },
                        _ => J::O(vec![("ptr", self.operand(func))]),
                    };
                    let av = args.iter().map(|a| self.operand(&a.node)).collect();
                    J::A(vec![s("call"), fj, J::A(av), self.place(destination), match target { Some(t) => tb(*t), None => J::N }])
                }
                other => J::A(vec![s("other"), J::S(format!("{:?}", other).chars().take(60).collect())]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("sp", sp), ("cl", J::B(bb.is_cleanup))]));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value { if p.projection.is_empty() { names.push(J::A(vec![J::U(p.local.as_u32() as u128), J::S(v.name.to_string())])); } }
        }
        let mut o = vec![("key", J::S(key)), ("path", J::S(self.path(d))), ("crate", J::S(self.tcx.crate_name(d.krate).to_string())), ("argc", J::U(b.arg_count as u128)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)), ("span", self.span(b.span))];
        o.push(("spread", match b.spread_arg { Some(l) => J::U(l.as_u32() as u128), None => J::N }));
        if let Some(r) = root { o.push(("root", r)); }
        J::O(o)
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), types: vec![], tmap: HashMap::new(), bodies: vec![], seen: HashSet::new(), queue: VecDeque::new() };
    let mut roots = HashMap::new();
    let mut impls = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
        let env = TypingEnv::post_analysis(tcx, d);
        cx.env = env;
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance { def: InstanceKind::Item(d), args };
        let mut r = vec![("name", J::S(tcx.item_name(d).to_string())), ("vis", J::B(tcx.visibility(d).is_public()))];
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            r.push(("self", J::U(sti as u128)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                r.push(("trait", J::S(cx.path(tr.def_id))));
                // default methods of the trait, instantiated for this impl
                let mut dm = vec![];
                for it in tcx.associated_items(tr.def_id).in_definition_order() {
                    if it.is_fn() && it.defaultness(tcx).has_value() {
                        let g = tcx.generics_of(it.def_id);
                        if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
                        let a = tr.args.extend_to(tcx, it.def_id, |p, _| tcx.mk_param_from_def(p));
                        let a = tcx.erase_and_anonymize_regions(a);
                        if let Ok(Some(i2)) = Instance::try_resolve(tcx, env, it.def_id, a) {
                            let k = cx.enqueue(i2);
                            dm.push(J::A(vec![J::S(it.name().to_string()), k]));
                        }
                    }
                }
                r.push(("defaults", J::A(dm)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            r.push(("intrait", J::S(cx.path(tr))));
        }
        let key = cx.key(&inst);
        roots.insert(key.clone(), J::O(r));
        if cx.seen.insert(key.clone()) { cx.queue.push_back((inst, env, key)); }
    }
    // ADT info: Drop impls
    for im in tcx.all_local_trait_impls(()).iter() {
        for i in im.1.iter() {
            let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
            impls.push(J::A(vec![J::S(cx.path(*im.0)), J::S(cx.tystr(st))]));
        }
    }
    while let Some((inst, env, key)) = cx.queue.pop_front() {
        cx.env = env;
        let d = inst.def_id();
        let m = tcx.instance_mir(inst.def);
        let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, m.clone()));
        let r = roots.remove(&key);
        let j = cx.body(&b, key, d, r);
        cx.bodies.push(j);
    }
    let mut o = String::new();
    J::O(vec![("crate", J::S(tcx.crate_name(LOCAL_CRATE).to_string())), ("types", J::A(std::mem::take(&mut cx.types))), ("bodies", J::A(std::mem::take(&mut cx.bodies))), ("impls", J::A(impls))]).write(&mut o);
    std::fs::write(out, o).unwrap();
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if let Ok(dir) = std::env::var("NSV_OUT") {
            let want = std::env::var("NSV_CRATES").unwrap_or_default();
            if want.split(',').any(|x| x == name) {
                dump(tcx, &format!("{}/{}.json", dir, name));
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_dump = {
        let want = std::env::var("NSV_CRATES").unwrap_or_default();
        args.windows(2).any(|w| w[0] == "--crate-name" && want.split(',').any(|x| x == w[1]))
    };
    if is_dump {
        for f in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Coverflow-checks=on", "-Cdebug-assertions=on"] { args.push(f.into()); }
    }
    
    let code = rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb)); if code != std::process::ExitCode::SUCCESS { std::process::exit(1) }
}
