//! faemir: a rustc driver that dumps the monomorphised, type-resolved MIR of the
//! crate being compiled (plus the library bodies it reaches) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; it dumps only for the crate named in FAEMIR_CRATE.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{ConstValue, ProjectionElem};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_forced_trimmed_paths};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cb {
    out: String,
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<J>,
    type_queue: VecDeque<(usize, Ty<'tcx>)>,
    queue: VecDeque<Instance<'tcx>>,
    keys: HashMap<Instance<'tcx>, String>,
    used_keys: HashMap<String, usize>,
    bodies: Vec<(String, J)>,
    seen: HashSet<Instance<'tcx>>,
}

/// foreign crates/modules whose bodies are worth having (small, pure, value-level code)
const EXPAND: &[&str] = &[
    "core::option", "core::result", "core::ops", "core::convert", "core::cmp", "core::clone",
    "core::bool", "core::tuple", "core::default", "core::num", "core::mem", "core::borrow",
    "std::option", "std::result", "std::ops", "std::convert", "std::cmp", "std::clone",
    "std::bool", "std::default", "std::num", "std::borrow",
    "goblin", "target_lexicon", "alloc::borrow",
];

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: HashMap::new(),
            type_json: Vec::new(),
            type_queue: VecDeque::new(),
            queue: VecDeque::new(),
            keys: HashMap::new(),
            used_keys: HashMap::new(),
            bodies: Vec::new(),
            seen: HashSet::new(),
        }
    }

    fn path(&self, did: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(did)))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(J::Null);
        self.type_queue.push_back((i, t));
        i
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)))
    }

    fn drain_types(&mut self) {
        while let Some((i, t)) = self.type_queue.pop_front() {
            let j = self.type_entry(t);
            self.type_json[i] = j;
        }
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn type_entry(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut m: Vec<(&'static str, J)> = vec![("s", J::s(self.tystr(t)))];
        match *t.kind() {
            ty::Bool => m.push(("k", J::s("bool"))),
            ty::Char => m.push(("k", J::s("char"))),
            ty::Int(i) => {
                m.push(("k", J::s("int")));
                m.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128)));
                m.push(("signed", J::B(true)));
            }
            ty::Uint(i) => {
                m.push(("k", J::s("int")));
                m.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128)));
                m.push(("signed", J::B(false)));
            }
            ty::Str => m.push(("k", J::s("str"))),
            ty::Never => m.push(("k", J::s("never"))),
            ty::Tuple(ts) => {
                m.push(("k", J::s("tuple")));
                let v = ts.iter().map(|t| J::I(self.ty(t) as i128)).collect();
                m.push(("args", J::A(v)));
            }
            ty::Ref(_, inner, mu) => {
                m.push(("k", J::s("ref")));
                m.push(("mut", J::B(mu.is_mut())));
                let i = self.ty(inner);
                m.push(("inner", J::I(i as i128)));
            }
            ty::RawPtr(inner, mu) => {
                m.push(("k", J::s("ptr")));
                m.push(("mut", J::B(mu.is_mut())));
                let i = self.ty(inner);
                m.push(("inner", J::I(i as i128)));
            }
            ty::Array(inner, n) => {
                m.push(("k", J::s("array")));
                let i = self.ty(inner);
                m.push(("inner", J::I(i as i128)));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    m.push(("n", J::I(n as i128)));
                }
            }
            ty::Slice(inner) => {
                m.push(("k", J::s("slice")));
                let i = self.ty(inner);
                m.push(("inner", J::I(i as i128)));
            }
            ty::Adt(def, args) => {
                m.push(("k", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let p = self.path(def.did());
                let krate = tcx.crate_name(def.did().krate).to_string();
                m.push(("path", J::s(p.clone())));
                m.push(("crate", J::s(krate.clone())));
                let targs: Vec<J> = args.types().map(|t| J::I(self.ty(t) as i128)).collect();
                m.push(("args", J::A(targs)));
                if def.did().is_local() {
                    m.push(("droppy", J::B(def.has_dtor(tcx))));
                }
                m.push(("freeze", J::B(t.is_freeze(tcx, self.env))));
                let expand = def.did().is_local()
                    || matches!(krate.as_str(), "goblin" | "target_lexicon" | "scroll")
                    || (matches!(krate.as_str(), "core" | "std" | "alloc")
                        && (p.starts_with("core::") || p.starts_with("std::") || p.starts_with("alloc::"))
                        && (p.contains("::option::") || p.contains("::result::") || p.contains("::ops::")
                            || p.contains("::cmp::") || p.contains("SeekFrom") || p.contains("borrow::Cow")
                            || p.contains("::Wrapping") || p.contains("cmp::Reverse")
                            || p.contains("collections::hash::map::Entry") || p.contains("btree::map::entry::Entry")
                            || p.contains("hash_map::Entry") || p.contains("btree_map::Entry")))
                    || (krate == "indexmap" && p.ends_with("::Entry"))
                    || (krate == "hashbrown" && p.ends_with("::Entry"));
                let mut vs = Vec::new();
                if expand {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let fty = self.norm(f.ty(tcx, args).skip_norm_wip());
                            let fi = self.ty(fty);
                            let mut e = vec![("n", J::s(f.name.to_string())), ("t", J::I(fi as i128))];
                            if f.did.is_local() {
                                e.push(("vis", J::s(format!("{:?}", f.vis))));
                            }
                            fs.push(J::o(e));
                        }
                        let d = if def.is_enum() {
                            J::I(t.discriminant_for_variant(tcx, vi).map(|d| d.val as i128).unwrap_or(-1))
                        } else {
                            J::I(0)
                        };
                        vs.push(J::o(vec![
                            ("n", J::s(v.name.to_string())),
                            ("d", d),
                            ("f", J::A(fs)),
                        ]));
                    }
                    m.push(("variants", J::A(vs)));
                }
            }
            ty::Closure(did, args) => {
                m.push(("k", J::s("closure")));
                let inst = Instance::new_raw(did, args);
                let key = self.enqueue(inst);
                m.push(("key", J::s(key)));
                m.push(("ckind", J::s(format!("{:?}", args.as_closure().kind()))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| J::I(self.ty(t) as i128)).collect();
                m.push(("args", J::A(ups)));
            }
            ty::FnDef(did, args) => {
                m.push(("k", J::s("fndef")));
                let c = self.callee(did, args.skip_binder());
                m.push(("callee", c));
            }
            ty::FnPtr(..) => m.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => m.push(("k", J::s("dyn"))),
            ty::Param(..) => m.push(("k", J::s("param"))),
            _ => m.push(("k", J::s("other"))),
        }
        J::o(m)
    }

    fn key_of(&mut self, inst: Instance<'tcx>) -> String {
        if let Some(k) = self.keys.get(&inst) {
            return k.clone();
        }
        let base = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", inst)));
        let n = self.used_keys.entry(base.clone()).or_insert(0);
        *n += 1;
        let k = if *n == 1 { base } else { format!("{}#{}", base, n) };
        self.keys.insert(inst, k.clone());
        k
    }

    fn has_mir(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(did) => {
                if tcx.is_foreign_item(did) || tcx.intrinsic(did).is_some() {
                    return false;
                }
                match tcx.def_kind(did) {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {}
                    _ => return false,
                }
                tcx.is_mir_available(did)
            }
            _ => false,
        }
    }

    fn wanted(&self, inst: Instance<'tcx>) -> bool {
        let did = inst.def_id();
        if did.is_local() {
            return true;
        }
        let p = self.path(did);
        let p = p.trim_start_matches('<');
        if EXPAND.iter().any(|e| p.starts_with(e)) {
            return true;
        }
        // impl paths are printed as <T as Trait>::f : take the trait impl's module instead
        let k = self.tcx.crate_name(did.krate).to_string();
        if k == "goblin" || k == "target_lexicon" {
            return true;
        }
        if k == "core" || k == "alloc" || k == "std" {
            let dp = self.tcx.def_path(did).to_string_no_crate_verbose();
            return ["::option::", "::result::", "::ops::", "::convert::", "::cmp::", "::clone::", "::borrow::", "::bool::", "::default::"]
                .iter()
                .any(|e| dp.starts_with(e));
        }
        false
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> String {
        let k = self.key_of(inst);
        if self.has_mir(inst) && self.wanted(inst) && self.seen.insert(inst) {
            self.queue.push_back(inst);
        }
        k
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut m: Vec<(&'static str, J)> = vec![("path", J::s(self.path(did)))];
        m.push(("crate", J::s(tcx.crate_name(did.krate).to_string())));
        m.push(("name", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())));
        if let DefKind::Ctor(..) = tcx.def_kind(did) {
            // tuple struct / enum variant constructor used as a function
            let pid = tcx.parent(did);
            let (adt, vidx) = if tcx.def_kind(pid) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(pid));
                (adt, adt.variant_index_with_id(pid).as_usize())
            } else {
                (tcx.adt_def(pid), 0)
            };
            let t = Ty::new_adt(tcx, adt, args);
            let ti = self.ty(t);
            m.push(("ctor", J::A(vec![J::I(ti as i128), J::I(vidx as i128)])));
            return J::o(m);
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            m.push(("trait", J::s(self.path(tr))));
            m.push(("method", J::s(tcx.item_name(did).to_string())));
        }
        let targs: Vec<J> = args.types().map(|t| J::I(self.ty(t) as i128)).collect();
        m.push(("targs", J::A(targs)));
        if let Some(i) = tcx.intrinsic(did) {
            m.push(("intrinsic", J::s(i.name.to_string())));
        }
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                m.push(("kind", J::s(kind)));
                m.push(("rpath", J::s(self.path(inst.def_id()))));
                m.push(("rcrate", J::s(tcx.crate_name(inst.def_id().krate).to_string())));
                if let Some(impl_did) = tcx.impl_of_assoc(inst.def_id()) {
                    if tcx.is_builtin_derived(impl_did) {
                        m.push(("derived", J::B(true)));
                    }
                }
                if let InstanceKind::Item(_) = inst.def {
                    if self.has_mir(inst) && self.wanted(inst) {
                        let k = self.enqueue(inst);
                        m.push(("key", J::s(k)));
                    }
                } else if let InstanceKind::Shim(rustc_middle::ty::ShimKind::ClosureOnce { .. }) = inst.def {
                    m.push(("shim", J::s("fnonce")));
                } else {
                    m.push(("shim", J::s(format!("{:?}", inst.def))));
                }
                if kind == "item" {
                    let rt: Vec<J> = inst.args.types().map(|t| J::I(self.ty(t) as i128)).collect();
                    m.push(("rtargs", J::A(rt)));
                }
            }
            _ => m.push(("kind", J::s("unresolved"))),
        }
        J::o(m)
    }

    // ---- constants -------------------------------------------------------------------------
    fn alloc_bytes(&self, id: AllocId, start: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if start + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(start..start + len).to_vec())
            }
            _ => None,
        }
    }

    fn bytes_j(t_is_str: bool, b: Vec<u8>) -> J {
        if t_is_str {
            J::o(vec![("str", J::s(String::from_utf8_lossy(&b).to_string()))])
        } else {
            J::o(vec![("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect()))])
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return J::o(vec![("opaque", J::s("deep"))]);
        }
        match *t.kind() {
            ty::FnDef(did, args) => {
                let c = self.callee(did, args.skip_binder());
                return J::o(vec![("fn", c)]);
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits_unchecked();
                    let val: i128 = if let ty::Int(_) = t.kind() { s.to_int(s.size()) } else { bits as i128 };
                    return J::o(vec![("int", J::I(val))]);
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let n = match *t.kind() {
                        ty::Bool => 1,
                        ty::Char => 4,
                        ty::Int(i) => i.bit_width().unwrap_or(64) as usize / 8,
                        ty::Uint(i) => i.bit_width().unwrap_or(64) as usize / 8,
                        _ => 8,
                    };
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes() as usize, n) {
                        let mut x: u128 = 0;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        let val = if let ty::Int(_) = t.kind() {
                            let sh = 128 - 8 * n as u32;
                            ((x << sh) as i128) >> sh
                        } else {
                            x as i128
                        };
                        return J::o(vec![("int", J::I(val))]);
                    }
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match *inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let is_str = inner.is_str();
                        let is_u8 = matches!(*inner.kind(), ty::Slice(e) if e == tcx.types.u8);
                        if is_str || is_u8 {
                            if let ConstValue::Slice { alloc_id, meta } = v {
                                if let Some(b) = self.alloc_bytes(alloc_id, 0, meta as usize) {
                                    return Self::bytes_j(is_str, b);
                                }
                            }
                            if let ConstValue::Indirect { .. } = v {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    return Self::bytes_j(is_str, b.to_vec());
                                }
                            }
                        } else if let ty::Slice(elem) = *inner.kind() {
                            let info = match v {
                                ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0u64, meta)),
                                ConstValue::Indirect { alloc_id, offset } => self.read_wide(alloc_id, offset.bytes()),
                                _ => None,
                            };
                            if let Some((id, off, n)) = info {
                                let at = Ty::new_array(tcx, elem, n);
                                let c = self.const_val(
                                    ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) },
                                    at,
                                    depth + 1,
                                );
                                return J::o(vec![("ref", c)]);
                            }
                        }
                    }
                    ty::Dynamic(..) => {}
                    _ => {
                        let p = match v {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                                let (prov, off) = p.into_raw_parts();
                                Some((prov.alloc_id(), off.bytes()))
                            }
                            ConstValue::Indirect { alloc_id, offset } => self.read_thin(alloc_id, offset.bytes()),
                            _ => None,
                        };
                        if let Some((id, off)) = p {
                            if let GlobalAlloc::Memory(_) = tcx.global_alloc(id) {
                                let c = self.const_val(
                                    ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) },
                                    inner,
                                    depth + 1,
                                );
                                return J::o(vec![("ref", c)]);
                            }
                            if let GlobalAlloc::Static(did) = tcx.global_alloc(id) {
                                return J::o(vec![("static", J::s(self.path(did)))]);
                            }
                        }
                    }
                }
            }
            ty::Adt(def, args) if !def.is_union() => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = d.variant.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                    let _ = args;
                    let ti = self.ty(t);
                    let fs: Vec<J> = d.fields.iter().map(|&(fv, ft)| {
                        let ft = self.norm(ft);
                        let fti = self.ty(ft);
                        let c = self.const_val(fv, ft, depth + 1);
                        J::A(vec![J::I(fti as i128), c])
                    }).collect();
                    return J::o(vec![("adt", J::I(ti as i128)), ("v", J::I(vi.as_usize() as i128)), ("f", J::A(fs))]);
                }
            }
            ty::Tuple(_) | ty::Array(..) => {
                if let ty::Tuple(ts) = *t.kind() {
                    if ts.is_empty() {
                        return J::o(vec![("unit", J::B(true))]);
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d.fields.iter().map(|&(fv, ft)| {
                        let ft = self.norm(ft);
                        let fti = self.ty(ft);
                        let c = self.const_val(fv, ft, depth + 1);
                        J::A(vec![J::I(fti as i128), c])
                    }).collect();
                    return J::o(vec![("agg", J::A(fs))]);
                }
            }
            ty::Closure(..) => return J::o(vec![("zst", J::B(true))]),
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return J::o(vec![("zst", J::B(true))]);
        }
        J::o(vec![("opaque", J::s(format!("{:?}", v)))])
    }

    fn read_thin(&self, id: AllocId, off: u64) -> Option<(AllocId, u64)> {
        let tcx = self.tcx;
        if let GlobalAlloc::Memory(a) = tcx.global_alloc(id) {
            let a = a.inner();
            let ps = tcx.data_layout.pointer_size();
            let sc = a.read_scalar(&tcx, mir::interpret::alloc_range(rustc_abi::Size::from_bytes(off), ps), true).ok()?;
            if let Scalar::Ptr(p, _) = sc {
                let (prov, o) = p.into_raw_parts();
                return Some((prov.alloc_id(), o.bytes()));
            }
        }
        None
    }

    fn read_wide(&self, id: AllocId, off: u64) -> Option<(AllocId, u64, u64)> {
        let (i, o) = self.read_thin(id, off)?;
        let b = self.alloc_bytes(id, off as usize + 8, 8)?;
        let n = u64::from_le_bytes(b.try_into().ok()?);
        Some((i, o, n))
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.norm(c.const_.ty());
        let ti = self.ty(t);
        let mut name = None;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = Some(self.path(u.def));
            }
        }
        let v = match c.const_.eval(tcx, self.env, c.span) {
            Ok(v) => self.const_val(v, t, 0),
            Err(_) => J::o(vec![("opaque", J::s("eval-failed"))]),
        };
        let mut m = vec![("t", J::I(ti as i128)), ("v", v)];
        if let Some(n) = name {
            m.push(("name", J::s(n)));
        }
        J::o(m)
    }

    // ---- bodies ----------------------------------------------------------------------------
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(i, t) => {
                    let t = self.norm(t);
                    let ti = self.ty(t);
                    J::A(vec![J::s("f"), J::I(i.as_usize() as i128), J::I(ti as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![J::s("d"), J::I(vi.as_usize() as i128)]),
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(v)])
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p)]),
            mir::Operand::Constant(c) => J::A(vec![J::s("k"), self.constant(c)]),
            mir::Operand::RuntimeChecks(_) => {
                let ti = self.ty(self.tcx.types.bool);
                J::A(vec![J::s("k"), J::o(vec![("t", J::I(ti as i128)), ("v", J::o(vec![("int", J::I(0))])), ("name", J::s("runtime_checks"))])])
            }
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![J::s("use"), self.operand(o)]),
            Repeat(o, n) => {
                let n = self.norm_const(*n);
                J::A(vec![J::s("rep"), self.operand(o), n])
            }
            Ref(_, bk, p) => J::A(vec![
                J::s("ref"),
                J::B(matches!(bk, mir::BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            RawPtr(_, p) => J::A(vec![J::s("ref"), J::B(true), self.place(p)]),
            ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(self.path(*d))]),
            Cast(k, o, t) => {
                let t = self.norm(*t);
                let from = self.norm(o.ty(&body.local_decls, self.tcx));
                let fi = self.ty(from);
                let ti = self.ty(t);
                let mut ks = format!("{:?}", k);
                if let mir::CastKind::PointerCoercion(pc, _) = k {
                    ks = format!("Coerce{:?}", pc);
                }
                J::A(vec![J::s("cast"), J::s(ks), self.operand(o), J::I(fi as i128), J::I(ti as i128)])
            }
            BinaryOp(op, ab) => {
                let t = self.norm(ab.0.ty(&body.local_decls, self.tcx));
                let ti = self.ty(t);
                J::A(vec![J::s("bin"), J::s(format!("{:?}", op)), self.operand(&ab.0), self.operand(&ab.1), J::I(ti as i128)])
            }
            UnaryOp(op, a) => {
                let t = self.norm(a.ty(&body.local_decls, self.tcx));
                let ti = self.ty(t);
                J::A(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(a), J::I(ti as i128)])
            }
            Discriminant(p) => {
                let t = self.norm(p.ty(&body.local_decls, self.tcx).ty);
                let ti = self.ty(t);
                J::A(vec![J::s("discr"), self.place(p), J::I(ti as i128)])
            }
            Aggregate(k, ops) => {
                let kind = match **k {
                    mir::AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    mir::AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    mir::AggregateKind::Adt(did, vi, args, _, active) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(did), args);
                        let t = self.norm(t);
                        let ti = self.ty(t);
                        J::A(vec![J::s("adt"), J::I(ti as i128), J::I(vi.as_usize() as i128), J::B(active.is_some())])
                    }
                    mir::AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(self.tcx, did, args);
                        let ti = self.ty(t);
                        J::A(vec![J::s("closure"), J::I(ti as i128)])
                    }
                    _ => J::A(vec![J::s("?")]),
                };
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                J::A(vec![J::s("agg"), kind, J::A(ops)])
            }
            CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("cp"), self.place(p)])]),
            _ => J::A(vec![J::s("?"), J::s(format!("{:?}", r))]),
        }
    }

    fn norm_const(&mut self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => J::I(n as i128),
            None => J::Null,
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        J::I(loc.line as i128)
    }

    fn body(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let key = self.key_of(inst);
        let did = inst.def_id();
        let raw = tcx.instance_mir(inst.def).clone();
        let body: mir::Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx, self.env, ty::EarlyBinder::bind(tcx, raw)) {
            Ok(b) => b,
            Err(_) => return,
        };
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, &body);
                        let l = self.line(s.source_info.span);
                        ss.push(J::A(vec![J::s("="), p, r, l]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(J::A(vec![J::s("setd"), p, J::I(variant_index.as_usize() as i128)]));
                    }
                    mir::StatementKind::StorageDead(l) => {
                        ss.push(J::A(vec![J::s("dead"), J::I(l.as_usize() as i128)]));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        if let mir::NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            ss.push(J::A(vec![J::s("?"), J::s("copy_nonoverlapping")]));
                        }
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let l = self.line(term.source_info.span);
            use mir::TerminatorKind as T;
            let t = match &term.kind {
                T::Goto { target, .. } => vec![J::s("goto"), J::I(target.as_usize() as i128)],
                T::SwitchInt { discr, targets } => {
                    let t = self.norm(discr.ty(&body.local_decls, tcx));
                    let ti = self.ty(t);
                    let signed_bits = match *t.kind() { ty::Int(i) => i.bit_width().unwrap_or(64) as u32, _ => 0 };
                    let d = self.operand(discr);
                    let cs: Vec<J> = targets.iter().map(|(v, b)| {
                        let v = if signed_bits > 0 { let sh = 128 - signed_bits; ((v << sh) as i128) >> sh } else { v as i128 };
                        J::A(vec![J::I(v), J::I(b.as_usize() as i128)])
                    }).collect();
                    vec![J::s("switch"), d, J::A(cs), J::I(targets.otherwise().as_usize() as i128), J::I(ti as i128)]
                }
                T::Return => vec![J::s("ret")],
                T::Unreachable => vec![J::s("unreachable")],
                T::UnwindResume | T::UnwindTerminate(_) => vec![J::s("resume")],
                T::Drop { place, target, .. } => {
                    let t = self.norm(place.ty(&body.local_decls, tcx).ty);
                    let ti = self.ty(t);
                    let p = self.place(place);
                    vec![J::s("drop"), p, J::I(target.as_usize() as i128), J::I(ti as i128)]
                }
                T::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let at: Vec<J> = args.iter().map(|x| {
                        let t = self.norm(x.node.ty(&body.local_decls, tcx));
                        J::I(self.ty(t) as i128)
                    }).collect();
                    let d = self.place(destination);
                    let dt = self.norm(destination.ty(&body.local_decls, tcx).ty);
                    let dti = self.ty(dt);
                    vec![J::s("call"), f, J::A(a), d,
                        target.map(|b| J::I(b.as_usize() as i128)).unwrap_or(J::Null), J::A(at), J::I(dti as i128)]
                }
                T::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond);
                    let d = with_forced_trimmed_paths!(format!("{:?}", msg));
                    let kind = d.split(|c| c == '(' || c == '{' || c == ' ').next().unwrap_or("").to_string();
                    vec![J::s("assert"), c, J::B(*expected), J::I(target.as_usize() as i128), J::s(kind)]
                }
                other => vec![J::s("?"), J::s(format!("{:?}", other))],
            };
            blocks.push(J::o(vec![("s", J::A(ss)), ("t", J::A(t)), ("l", l), ("c", J::B(bb.is_cleanup))]));
        }
        let locals: Vec<J> = body.local_decls.iter().map(|d| {
            let t = self.norm(d.ty);
            J::I(self.ty(t) as i128)
        }).collect();
        let mut names: Vec<J> = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(J::A(vec![J::s(v.name.to_string()), pj]));
            }
        }
        let loc = tcx.sess.source_map().lookup_char_pos(tcx.def_span(did).lo());
        let mut m = vec![
            ("path", J::s(self.path(did))),
            ("crate", J::s(tcx.crate_name(did.krate).to_string())),
            ("local", J::B(did.is_local())),
            ("file", J::s(format!("{}", loc.file.name.prefer_local_unconditionally()))),
            ("line", J::I(loc.line as i128)),
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(sp) = body.spread_arg {
            m.push(("spread", J::I(sp.as_usize() as i128)));
        }
        if let Some(impl_did) = tcx.impl_of_assoc(did) {
            if tcx.is_builtin_derived(impl_did) {
                m.push(("derived", J::B(true)));
            }
            if tcx.impl_is_of_trait(impl_did) {
                let tr = tcx.impl_trait_ref(impl_did).skip_binder().def_id;
                m.push(("impl_trait", J::s(self.path(tr))));
            }
            let st = self.norm(tcx.type_of(impl_did).instantiate_identity().skip_norm_wip());
            m.push(("impl_self", J::s(self.tystr(st))));
        }
        if did.is_local() {
            let v = tcx.visibility(did);
            m.push(("pub", J::B(v.is_public())));
            let reach = did.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
            m.push(("reachable", J::B(reach)));
            m.push(("unsafe", J::B(matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe())));
        }
        if let InstanceKind::Item(d) = inst.def {
            if tcx.def_kind(d) == DefKind::Closure {
                m.push(("closure", J::B(true)));
            }
        }
        let targs: Vec<J> = inst.args.types().map(|t| J::I(self.ty(t) as i128)).collect();
        m.push(("targs", J::A(targs)));
        self.bodies.push((key, J::o(m)));
    }

    /// Choose concrete types for the type parameters of a generic root.
    fn root_args(&self, did: DefId, pool: &[Ty<'tcx>]) -> Option<ty::GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let g = tcx.generics_of(did);
        let n = g.count();
        let mut tparams = Vec::new();
        for i in 0..n {
            match g.param_at(i, tcx).kind {
                ty::GenericParamDefKind::Type { .. } => tparams.push(i),
                ty::GenericParamDefKind::Const { .. } => return None,
                _ => {}
            }
        }
        // depth-first assignment over the pool; the predicate check decides
        let k = tparams.len();
        if k > 3 {
            return None;
        }
        let total = pool.len().pow(k as u32);
        for code in 0..total {
            let mut c = code;
            let mut choice = HashMap::new();
            for &p in &tparams {
                choice.insert(p as u32, pool[c % pool.len()]);
                c /= pool.len();
            }
            let args = ty::GenericArgs::for_item(tcx, did, |param, _| match param.kind {
                ty::GenericParamDefKind::Type { .. } => choice[&param.index].into(),
                _ => tcx.lifetimes.re_erased.into(),
            });
            if !tcx.instantiate_and_check_impossible_clauses((did, args)) {
                return Some(args);
            }
        }
        None
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        // pool of types used to instantiate public generic entry points
        let mut pool: Vec<Ty<'tcx>> = vec![Ty::new_static_str(tcx)];
        let mut by_name: BTreeMap<String, Ty<'tcx>> = BTreeMap::new();
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if tcx.generics_of(did).own_counts().types == 0 {
                    by_name.insert(self.path(did), tcx.erase_and_anonymize_regions(t));
                }
            }
        }
        for want in ["artifact::decl::Decl", "artifact::Data"] {
            if let Some((_, t)) = by_name.iter().find(|(k, _)| k.ends_with(want)) {
                pool.push(*t);
                if want.ends_with("Decl") {
                    // vec::IntoIter<(&'static str, Decl)> for Iterator-bounded parameters
                    if let Some(vi) = self.find_std(&["alloc", "vec", "into_iter", "IntoIter"]) {
                        let tup = Ty::new_tup(tcx, &[Ty::new_static_str(tcx), *t]);
                        let global = self.find_std(&["alloc", "alloc", "Global"]);
                        if let Some(gl) = global {
                            let gt = tcx.type_of(gl).instantiate_identity().skip_norm_wip();
                            pool.push(Ty::new_adt(tcx, tcx.adt_def(vi), tcx.mk_args(&[tup.into(), gt.into()])));
                        }
                    }
                }
            }
        }
        let mut roots = Vec::new();
        let mut skipped = Vec::new();
        let mut unsafe_blocks = 0i128;
        for &l in tcx.mir_keys(()).iter() {
            let did = l.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let g = tcx.generics_of(did);
            let inst = if g.requires_monomorphization(tcx) {
                match self.root_args(did, &pool) {
                    Some(a) => Instance::try_resolve(tcx, self.env, did, a).ok().flatten(),
                    None => None,
                }
            } else {
                Some(Instance::new_raw(did, tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did))))
            };
            match inst {
                Some(i) => {
                    let k = self.enqueue(i);
                    roots.push(J::s(k));
                }
                None => skipped.push(J::s(self.path(did))),
            }
            // unsafe code: count unsafe blocks through THIR is stolen by now; use the HIR
            if let Some(b) = tcx.hir_maybe_body_owned_by(l) {
                let mut v = UnsafeCounter(0);
                rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
                unsafe_blocks += v.0;
            }
        }
        loop {
            if let Some(i) = self.queue.pop_front() {
                self.body(i);
                continue;
            }
            if !self.type_queue.is_empty() {
                self.drain_types();
                continue;
            }
            break;
        }
        let bodies = std::mem::take(&mut self.bodies);
        let types = std::mem::take(&mut self.type_json);
        J::o(vec![
            ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("roots", J::A(roots)),
            ("skipped", J::A(skipped)),
            ("unsafe_blocks", J::I(unsafe_blocks)),
            ("types", J::A(types)),
            ("bodies", J::M(bodies)),
        ])
    }

    fn find_std(&self, path: &[&str]) -> Option<DefId> {
        let tcx = self.tcx;
        let krate = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == path[0])?;
        let mut cur = krate.as_def_id();
        'outer: for seg in &path[1..] {
            for ch in tcx.module_children(cur) {
                if ch.ident.name.as_str() == *seg {
                    if let Some(d) = ch.res.opt_def_id() {
                        if matches!(tcx.def_kind(d), DefKind::Mod | DefKind::Struct | DefKind::Enum) {
                            cur = d;
                            continue 'outer;
                        }
                    }
                }
            }
            return None;
        }
        Some(cur)
    }
}

struct UnsafeCounter(i128);
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeCounter {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.0 += 1;
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump::new(tcx);
        let j = d.run();
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

struct NoCb;
impl rustc_driver::Callbacks for NoCb {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|s| s == "rustc").unwrap_or(false) {
        args.remove(1);
    }
    let want = std::env::var("FAEMIR_CRATE").unwrap_or_default();
    let out = std::env::var("FAEMIR_OUT").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    if is && is_lib && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
    }
}
