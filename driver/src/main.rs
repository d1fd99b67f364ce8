//! `mirdump`: a rustc driver used as RUSTC_WRAPPER.  For the crate named in
//! MIRDUMP_CRATE it lets rustc type-check the crate (macros expanded with the
//! real derive crate) and then writes, as JSON, the fully resolved MIR of every
//! function of that crate and of every instance transitively called from it
//! whose defining crate is `structmeta` / the crate itself / part of the small
//! set of `core` / `alloc` modules listed in `inline_ok`.  Nothing is executed.
//! Every other crate is passed to the ordinary compiler unchanged.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::{
    self, AggregateKind, BinOp, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt,
    TypeVisitableExt, TypingEnv,
};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<String>,
    inst_ids: HashMap<(Instance<'tcx>, Option<DefId>), usize>,
    queue: Vec<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    bodies: Vec<String>,
    env: TypingEnv<'tcx>,
    env_root: Option<DefId>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, id);
        let tcx = self.tcx;
        let txt = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))));
        let s = esc(&txt);
        let j = match *t.kind() {
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a = self.args(args);
                format!("{{\"k\":\"adt\",\"def\":{},\"args\":{a},\"s\":{s}}}", esc(&path(tcx, def.did())))
            }
            ty::Ref(_, i, m) => {
                let i = self.ty(i);
                format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{i},\"s\":{s}}}", m.is_mut())
            }
            ty::RawPtr(i, _) => {
                let i = self.ty(i);
                format!("{{\"k\":\"ptr\",\"t\":{i},\"s\":{s}}}")
            }
            ty::Slice(i) => {
                let i = self.ty(i);
                format!("{{\"k\":\"slice\",\"t\":{i},\"s\":{s}}}")
            }
            ty::Array(i, n) => {
                let n = n.try_to_target_usize(tcx);
                let i = self.ty(i);
                format!(
                    "{{\"k\":\"array\",\"t\":{i},\"n\":{},\"s\":{s}}}",
                    n.map(|n| n.to_string()).unwrap_or("null".into())
                )
            }
            ty::Tuple(ts) => {
                let a = arr(ts.iter().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                format!("{{\"k\":\"tuple\",\"ts\":{a},\"s\":{s}}}")
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(d, args);
                let inst = self.inst(inst);
                let kind = format!("{:?}", args.as_closure().kind());
                let n = args.as_closure().upvar_tys().len();
                format!(
                    "{{\"k\":\"closure\",\"def\":{},\"inst\":{},\"kind\":{},\"nup\":{n},\"s\":{s}}}",
                    esc(&path(tcx, d)),
                    opt(inst),
                    esc(&kind)
                )
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let inst = self.resolve(d, args);
                let rp = inst.map(|i| path(tcx, i.def_id()));
                let rself = inst.and_then(|i| tcx.impl_of_assoc(i.def_id()).map(|im| {
                    let st = tcx.type_of(im).instantiate(tcx, i.args.truncate_to(tcx, tcx.generics_of(im))).skip_norm_wip();
                    self.ty(st)
                }));
                let ii = inst.and_then(|i| self.inst(i));
                let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
                let ctor = if is_ctor {
                    let p = tcx.parent(d);
                    let (adt, vidx) = if matches!(tcx.def_kind(p), DefKind::Variant) {
                        let a = tcx.parent(p);
                        (a, tcx.adt_def(a).variant_index_with_id(p).as_usize())
                    } else {
                        (p, 0)
                    };
                    self.adt(adt);
                    format!("[{},{vidx}]", esc(&path(tcx, adt)))
                } else {
                    "null".into()
                };
                let tr = tcx.trait_of_assoc(d).map(|t| path(tcx, t));
                let a = self.args(args);
                let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let out = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(sig.output())).unwrap_or(sig.output());
                let ret = self.ty(tcx.erase_and_anonymize_regions(out));
                format!(
                    "{{\"k\":\"fndef\",\"def\":{},\"args\":{a},\"inst\":{},\"rpath\":{},\"rself\":{},\"ctor\":{ctor},\"trait\":{},\"ret\":{ret},\"s\":{s}}}",
                    esc(&path(tcx, d)),
                    opt(ii),
                    rp.map(|p| esc(&p)).unwrap_or("null".into()),
                    opt(rself),
                    tr.map(|p| esc(&p)).unwrap_or("null".into()),
                )
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Str | ty::Never | ty::Float(_) => {
                format!("{{\"k\":\"prim\",\"s\":{s}}}")
            }
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{s}}}"),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        };
        self.types[id] = j;
        id
    }
    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                GenericArgKind::Const(c) => Some(format!("{{\"const\":{}}}", esc(&format!("{c}")))),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let p = path(tcx, d);
        let local = d.is_local() || tcx.crate_name(d.krate).as_str() == "structmeta";
        let mut vs = Vec::new();
        if def.is_enum() || def.is_struct() {
            let discrs: Vec<(usize, i128)> = if def.is_enum() {
                def.discriminants(tcx)
                    .map(|(v, d)| {
                        let size = rustc_abi::Size::from_bits(match d.ty.kind() {
                            ty::Int(i) => i.bit_width().unwrap_or(64),
                            ty::Uint(i) => i.bit_width().unwrap_or(64),
                            _ => 64,
                        });
                        let val = if d.ty.is_signed() { size.sign_extend(d.val) } else { d.val as i128 };
                        (v.as_usize(), val)
                    })
                    .collect()
            } else {
                vec![(0, 0)]
            };
            for (vi, v) in def.variants().iter_enumerated() {
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = if local {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = tcx.erase_and_anonymize_regions(t);
                            self.ty(t).to_string()
                        } else {
                            "null".into()
                        };
                        format!("[{},{t}]", esc(f.name.as_str()))
                    })
                    .collect();
                let dv = discrs.iter().find(|x| x.0 == vi.as_usize()).map(|x| x.1).unwrap_or(0);
                vs.push(format!("{{\"n\":{},\"d\":{dv},\"f\":[{}]}}", esc(v.name.as_str()), fs.join(",")));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
        self.adt_out.push(format!("{}:{{\"kind\":\"{kind}\",\"variants\":[{}]}}", esc(&p), vs.join(",")));
    }
    fn resolve(&self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            return None;
        }
        match Instance::try_resolve(self.tcx, self.env, d, self.tcx.erase_and_anonymize_regions(args)) {
            Ok(Some(i)) => Some(i),
            _ => None,
        }
    }
    /// id of an instance whose body is dumped, if its body may be inlined
    fn inst(&mut self, i: Instance<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let d = match i.def {
            InstanceKind::Item(d) => d,
            _ => return None,
        };
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            return None;
        }
        if !inline_ok(tcx, d) || !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
            return None;
        }
        let root = if i.args.has_param() { self.env_root } else { None };
        if let Some(id) = self.inst_ids.get(&(i, root)) {
            return Some(*id);
        }
        let id = self.inst_ids.len();
        self.inst_ids.insert((i, root), id);
        self.bodies.push(String::new());
        self.queue.push((i, self.env, id));
        Some(id)
    }
    fn run_queue(&mut self) {
        while let Some((i, env, id)) = self.queue.pop() {
            self.env = env;
            let b = self.body_of(i, id);
            self.bodies[id] = b;
        }
    }
    fn body_of(&mut self, i: Instance<'tcx>, id: usize) -> String {
        let tcx = self.tcx;
        let d = i.def_id();
        let raw = tcx.instance_mir(i.def);
        let body = self.mono(i, raw);
        let txt = self.body(&body, i);
        let mut prom = Vec::new();
        if let InstanceKind::Item(d) = i.def {
            if !tcx.is_closure_like(d) || true {
                let ps = tcx.promoted_mir(d);
                for p in ps.iter() {
                    let b = self.mono(i, p);
                    prom.push(format!("{{{}}}", self.body(&b, i)));
                }
            }
        }
        let tr = tcx.trait_impl_of_assoc(d).map(|im| {
            let trr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let t = path(tcx, trr.def_id);
            let s = self.ty(tcx.erase_and_anonymize_regions(trr.self_ty()));
            format!("{{\"trait\":{},\"self\":{s},\"auto_derived\":{}}}", esc(&t), tcx.is_automatically_derived(im))
        });
        format!(
            "{{\"id\":{id},\"path\":{},\"crate\":{},\"local\":{},\"impl\":{},\"span\":{},{txt},\"promoted\":[{}]}}",
            esc(&path(tcx, d)),
            esc(tcx.crate_name(d.krate).as_str()),
            d.is_local(),
            tr.unwrap_or("null".into()),
            self.span(tcx.def_span(d)),
            prom.join(",")
        )
    }
    fn mono(&self, i: Instance<'tcx>, b: &Body<'tcx>) -> Body<'tcx> {
        // Normalise with the typing environment of the root; fall back to a plain substitution.
        let tcx = self.tcx;
        match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b.clone())) {
            Ok(b) => b,
            Err(_) => b.clone(),
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        let f = f.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
        esc(&format!("{f}:{}", lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut proj = Vec::new();
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_usize()),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{from},{to},{from_end}]"),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), proj.join(","))
    }
    fn int(&self, bits: u128, t: Ty<'tcx>, size: rustc_abi::Size) -> String {
        if t.is_bool() {
            return (if bits != 0 { "true" } else { "false" }).into();
        }
        if t.is_char() {
            return format!("{{\"char\":{bits}}}");
        }
        if t.is_signed() {
            format!("{{\"int\":{}}}", size.sign_extend(bits))
        } else {
            format!("{{\"int\":{bits}}}")
        }
    }
    fn constant(&mut self, c: &Const<'tcx>, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        let v = match *c {
            Const::Unevaluated(u, _) if u.promoted.is_some() => {
                if u.def == i.def_id() {
                    Some(format!("{{\"promoted\":{}}}", u.promoted.unwrap().as_usize()))
                } else {
                    None
                }
            }
            _ => None,
        };
        let v = v.or_else(|| match t.kind() {
            ty::FnDef(..) => Some("\"fn\"".to_string()),
            _ => None,
        });
        let v = v.or_else(|| {
            let val = match *c {
                Const::Val(v, _) => Some(v),
                _ => {
                    if c.has_param() {
                        None
                    } else {
                        c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok()
                    }
                }
            }?;
            self.const_val(val, t, 0)
        });
        // name of a const item, for reporting
        let item = match *c {
            Const::Unevaluated(u, _) if u.promoted.is_none() => Some(path(tcx, u.def)),
            _ => None,
        };
        format!(
            "{{\"t\":{tid},\"v\":{},\"item\":{}}}",
            v.unwrap_or("null".into()),
            item.map(|s| esc(&s)).unwrap_or("null".into())
        )
    }
    fn const_val(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        if matches!(t.kind(), ty::Closure(..) | ty::FnDef(..)) {
            return Some("\"zst\"".into());
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) && !t.has_param() {
            if let ty::Adt(def, _) = t.kind() {
                if def.is_union() {
                    return None;
                }
                self.adt(def.did());
            }
            let d = tcx.try_destructure_mir_constant_for_user_output(val, t)?;
            let mut fs = Vec::new();
            for (v, ft) in d.fields.iter() {
                let c = self.const_val(*v, *ft, depth + 1);
                fs.push(c.unwrap_or("null".into()));
            }
            let def = match t.kind() {
                ty::Adt(def, _) => esc(&path(tcx, def.did())),
                _ => "null".into(),
            };
            return Some(format!(
                "{{\"agg\":{def},\"v\":{},\"f\":[{}]}}",
                d.variant.map(|v| v.as_usize()).unwrap_or(0),
                fs.join(",")
            ));
        }
        match val {
            ConstValue::ZeroSized => Some("\"zst\"".into()),
            ConstValue::Scalar(s) => match s {
                mir::interpret::Scalar::Int(si) => Some(self.int(si.to_bits(si.size()), t, si.size())),
                mir::interpret::Scalar::Ptr(p, _) => {
                    self.alloc_ref(p.provenance.alloc_id(), p.into_raw_parts().1, t)
                }
            },
            ConstValue::Slice { .. } => {
                let b = val.try_get_slice_bytes_for_diagnostics(tcx)?;
                if t.builtin_deref(true).map(|x| x.is_str()).unwrap_or(false) {
                    Some(format!("{{\"str\":{}}}", esc(std::str::from_utf8(b).ok()?)))
                } else {
                    Some(format!("{{\"bytes\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.alloc_val(alloc_id, offset, t),
        }
    }
    fn alloc_ref(&mut self, id: mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>) -> Option<String> {
        let inner = t.builtin_deref(true)?;
        if inner.is_str() {
            return None;
        }
        let v = if matches!(inner.kind(), ty::Adt(..) | ty::Tuple(..)) {
            self.const_val(ConstValue::Indirect { alloc_id: id, offset: off }, inner, 1)?
        } else {
            self.alloc_val(id, off, inner)?
        };
        Some(format!("{{\"refto\":{v}}}"))
    }
    /// decode a constant allocation holding scalars, &str, arrays / tuples of those
    fn alloc_val(&mut self, id: mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let alloc = match tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(m) => m,
            _ => return None,
        };
        let alloc = alloc.inner();
        let layout = tcx.layout_of(self.env.as_query_input(t)).ok()?;
        match t.kind() {
            ty::Ref(_, inner, _) if inner.is_str() => {
                let ptr_size = tcx.data_layout.pointer_size();
                let p = alloc
                    .read_scalar(&tcx, mir::interpret::AllocRange { start: off, size: ptr_size }, true)
                    .ok()?;
                let l = alloc
                    .read_scalar(&tcx, mir::interpret::AllocRange { start: off + ptr_size, size: ptr_size }, false)
                    .ok()?;
                let len = l.to_target_usize(&tcx).discard_err()?;
                let p = p.to_pointer(&tcx);
                let (prov, poff) = p.into_raw_parts();
                let a2 = match tcx.try_get_global_alloc(prov?.alloc_id())? {
                    mir::interpret::GlobalAlloc::Memory(m) => m,
                    _ => return None,
                };
                let a2 = a2.inner();
                let s = poff.bytes_usize();
                let b = a2.inspect_with_uninit_and_ptr_outside_interpreter(s..s + len as usize);
                Some(format!("{{\"str\":{}}}", esc(std::str::from_utf8(b).ok()?)))
            }
            ty::Ref(_, inner, _) if inner.is_slice() => {
                let et = inner.builtin_index()?;
                let ptr_size = tcx.data_layout.pointer_size();
                let p = alloc
                    .read_scalar(&tcx, mir::interpret::AllocRange { start: off, size: ptr_size }, true)
                    .ok()?;
                let l = alloc
                    .read_scalar(&tcx, mir::interpret::AllocRange { start: off + ptr_size, size: ptr_size }, false)
                    .ok()?;
                let len = l.to_target_usize(&tcx).discard_err()?;
                let p = p.to_pointer(&tcx);
                let (prov, poff) = p.into_raw_parts();
                if len == 0 {
                    return Some("{\"refto\":{\"array\":[]}}".into());
                }
                let el = tcx.layout_of(self.env.as_query_input(et)).ok()?;
                let mut v = Vec::new();
                for k in 0..len {
                    v.push(self.alloc_val(prov?.alloc_id(), poff + el.size * k, et)?);
                }
                Some(format!("{{\"refto\":{{\"array\":[{}]}}}}", v.join(",")))
            }
            ty::Adt(..) | ty::Tuple(..) => {
                self.const_val(ConstValue::Indirect { alloc_id: id, offset: off }, t, 1)
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let el = tcx.layout_of(self.env.as_query_input(*et)).ok()?;
                let mut v = Vec::new();
                for k in 0..n {
                    v.push(self.alloc_val(id, off + el.size * k, *et)?);
                }
                Some(format!("{{\"array\":[{}]}}", v.join(",")))
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let s = alloc
                    .read_scalar(&tcx, mir::interpret::AllocRange { start: off, size: layout.size }, false)
                    .ok()?;
                let si = s.try_to_scalar_int().ok()?;
                Some(self.int(si.to_bits(si.size()), t, si.size()))
            }
            _ => None,
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>, i: Instance<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(&c.const_, i)),
            _ => "{\"k\":{\"t\":null,\"v\":true,\"item\":\"runtime-check\"}}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o, i)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(o, i),
                n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => {
                format!("{{\"r\":\"ref\",\"p\":{},\"mut\":{}}}", self.place(p), matches!(k, mir::BorrowKind::Mut { .. }))
            }
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"p\":{},\"mut\":true}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"ref\",\"p\":{},\"mut\":{}}}", self.place(p), m.is_mut())
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let o = self.operand(o, i);
                let kd = format!("{k:?}");
                let kd = kd.split('(').next().unwrap().to_string();
                format!("{{\"r\":\"cast\",\"kind\":{},\"o\":{o},\"t\":{ti}}}", esc(&kd))
            }
            Rvalue::BinaryOp(op, b) => {
                let (a, c) = &**b;
                let ops = match op {
                    BinOp::AddWithOverflow => "AddO".to_string(),
                    BinOp::SubWithOverflow => "SubO".to_string(),
                    BinOp::MulWithOverflow => "MulO".to_string(),
                    o => format!("{o:?}"),
                };
                format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", esc(&ops), self.operand(a, i), self.operand(c, i))
            }
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{op:?}")), self.operand(a, i))
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|o| self.operand(o, i)).collect::<Vec<_>>());
                let kk = match **k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(d);
                        format!("\"ak\":\"adt\",\"def\":{},\"v\":{}", esc(&path(tcx, d)), v.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let ct = self.ty(Ty::new_closure(tcx, d, args));
                        format!("\"ak\":\"closure\",\"t\":{ct}")
                    }
                    AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".to_string(),
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{kk},\"o\":{o}}}")
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(p)),
            _ => "{\"r\":\"other\"}".to_string(),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, i: Instance<'tcx>) -> String {
        let mut locals = Vec::new();
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, i);
                        st.push(format!("[{p},{r}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[{p},{{\"r\":\"setdiscr\",\"v\":{}}}]", variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("[{},null]", l.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let size = match dt.kind() {
                        ty::Int(it) => Some(it.bit_width().unwrap_or(64)),
                        _ => None,
                    };
                    let ts = arr(
                        targets
                            .iter()
                            .map(|(v, bb)| {
                                let v = match size {
                                    Some(s) => rustc_abi::Size::from_bits(s).sign_extend(v),
                                    None => v as i128,
                                };
                                format!("[{v},{}]", bb.as_usize())
                            })
                            .collect::<Vec<_>>(),
                    );
                    let dti = self.ty(dt);
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"ty\":{dti},\"ts\":{ts},\"else\":{},\"sp\":{sp}}}",
                        self.operand(discr, i),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pti = self.ty(pt);
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{pti},\"to\":{}}}", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, i);
                    let a = arr(args.iter().map(|a| self.operand(&a.node, i)).collect::<Vec<_>>());
                    let d = self.place(destination);
                    let dty = destination.ty(&b.local_decls, self.tcx).ty;
                    let dti = self.ty(dty);
                    format!(
                        "{{\"t\":\"call\",\"f\":{f},\"a\":{a},\"d\":{d},\"dt\":{dti},\"to\":{},\"sp\":{sp}}}",
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let mk = format!("{msg:?}");
                    let mk = mk.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    format!(
                        "{{\"t\":\"assert\",\"o\":{},\"exp\":{expected},\"to\":{},\"msg\":{},\"sp\":{sp}}}",
                        self.operand(cond, i),
                        target.as_usize(),
                        esc(&mk)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                _ => "{\"t\":\"other\"}".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{tt}}}", st.join(",")));
        }
        format!(
            "\"argc\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]",
            b.arg_count,
            locals.join(","),
            names.join(","),
            blocks.join(",")
        )
    }
}

fn opt(x: Option<usize>) -> String {
    x.map(|x| x.to_string()).unwrap_or("null".into())
}

/// May the body of this definition be dumped so that the analysis can look inside?
fn inline_ok(tcx: TyCtxt<'_>, d: DefId) -> bool {
    if d.is_local() {
        return true;
    }
    let k = tcx.crate_name(d.krate);
    match k.as_str() {
        "structmeta" => true,
        "core" | "std" | "alloc" => {
            let p = path(tcx, tcx.typeck_root_def_id(d));
            const OK: &[&str] = &[
                "core::option::",
                "core::result::",
                "core::bool::",
                "core::ops::function::",
                "core::ops::control_flow::",
                "core::convert::",
                "core::cmp::",
                "core::mem::",
                "core::clone::",
                "core::borrow::",
                "<core::option::Option",
                "<core::result::Result",
                "<core::ops::control_flow::",
                "<T as core::convert::",
                "<&T as core::",
                "<bool",
                "core::bool",
            ];
            OK.iter().any(|x| p.starts_with(x)) || p.contains("bool>::then")
        }
        _ => false,
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let env0 = TypingEnv::fully_monomorphized();
        let mut d = Dump {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: HashMap::new(),
            adt_out: vec![],
            inst_ids: HashMap::new(),
            queue: vec![],
            bodies: vec![],
            env: env0,
            env_root: None,
        };
        let mut roots = Vec::new();
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let g = tcx.generics_of(did);
            let needs = g.requires_monomorphization(tcx);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            d.env = if needs { TypingEnv::post_analysis(tcx, did) } else { env0 };
            d.env_root = Some(did);
            let inst = Instance::new_raw(did, args);
            if let Some(id) = d.inst(inst) {
                roots.push(id.to_string());
            }
            d.run_queue();
        }
        // every struct / enum of the crate, even if no function mentions it
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                d.adt(did);
            }
        }
        d.run_queue();
        let s = format!(
            "{{\"crate\":{},\"types\":[{}],\n\"adts\":{{{}}},\n\"roots\":[{}],\n\"bodies\":[{}]}}\n",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            d.types.join(",\n"),
            d.adt_out.join(",\n"),
            roots.join(","),
            d.bodies.join(",\n")
        );
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

/// MIRDUMP_FX: one line per call, function constant, static and address-to-integer cast of
/// every body of the crate: function, source file, kind, resolved path, operand types
/// (separated by tabs).
struct Fx {
    out: String,
}
impl Callbacks for Fx {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut o = String::new();
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::Static { .. }) {
                let t = tcx.type_of(did).instantiate_identity();
                let m = matches!(kind, DefKind::Static { mutability: mir::Mutability::Mut, .. });
                let env = TypingEnv::post_analysis(tcx, did);
                let t = tcx.normalize_erasing_regions(env, t);
                let _ = writeln!(o, "{}\t-\tstaticdef\t{}\t{}", path(tcx, did), if m || !t.is_freeze(tcx, env) { "mutable" } else { "constant" }, t);
                continue;
            }
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let b = tcx.optimized_mir(did).clone();
            let mut v = FxV { tcx, env, b: &b, me: path(tcx, did), file: String::new(), o: &mut o };
            use rustc_middle::mir::visit::Visitor;
            v.visit_body(&b);
        }
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, o).expect("write effects");
        std::fs::rename(&tmp, &self.out).expect("rename effects");
        Compilation::Continue
    }
}
struct FxV<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    b: &'a Body<'tcx>,
    me: String,
    file: String,
    o: &'a mut String,
}
impl<'tcx> FxV<'_, 'tcx> {
    fn put(&mut self, kind: &str, what: String, rest: String) {
        let c = |s: &str| s.replace(['\t', '\n'], " ");
        let l = format!("{}\t{}\t{}\t{}\t{}\n", c(&self.me), c(&self.file), kind, c(&what), c(&rest));
        self.o.push_str(&l);
    }
    fn callee(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let r = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).ok();
        let a = r.unwrap_or(args);
        match Instance::try_resolve(tcx, self.env, d, a) {
            Ok(Some(i)) => format!("{} :: {}", path(tcx, i.def_id()), path(tcx, d)),
            _ => path(tcx, d),
        }
    }
}
impl<'tcx> rustc_middle::mir::visit::Visitor<'tcx> for FxV<'_, 'tcx> {
    fn visit_source_info(&mut self, s: &mir::SourceInfo) {
        let l = self.tcx.sess.source_map().lookup_char_pos(s.span.source_callsite().lo());
        self.file = format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line);
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: mir::Location) {
        self.visit_source_info(&t.source_info);
        if let TerminatorKind::Call { func, args, .. } = &t.kind {
            if let ty::FnDef(d, ga) = *func.ty(self.b, self.tcx).kind() {
                let c = self.callee(d, ga.skip_binder());
                let tys: Vec<String> = args.iter().map(|a| format!("{}", with_no_trimmed_paths!(a.node.ty(self.b, self.tcx).to_string()))).collect();
                let local = if d.is_local() { "localcall" } else { "call" };
                self.put(local, c, tys.join(" ; "));
            }
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: mir::Location) {
        self.visit_source_info(self.b.source_info(l));
        if let Rvalue::Cast(k, _, t) = r {
            if matches!(k, mir::CastKind::PointerExposeProvenance) {
                self.put("ptr2int", format!("{t}"), String::new());
            }
        }
        if let Rvalue::ThreadLocalRef(d) = r {
            self.put("static", path(self.tcx, *d), "thread local".into());
        }
        self.super_rvalue(r, l);
    }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, l: mir::Location) {
        self.visit_source_info(self.b.source_info(l));
        if let ty::FnDef(d, ga) = *c.const_.ty().kind() {
            let s = self.callee(d, ga.skip_binder());
            self.put("fn", s, String::new());
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            let m = self.tcx.is_mutable_static(d);
            let t = self.tcx.type_of(d).instantiate_identity();
            let t = self.tcx.normalize_erasing_regions(self.env, t);
            let f = t.is_freeze(self.tcx, TypingEnv::fully_monomorphized());
            self.put("static", path(self.tcx, d), format!("{}", if m || !f { "mutable" } else { "constant" }));
        }
    }
}

struct Plain;
impl Callbacks for Plain {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
}

fn main() -> std::process::ExitCode {
    // invoked as: mirdump <rustc> <args...>
    let args: Vec<String> = std::env::args().skip(1).collect();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let fx = std::env::var("MIRDUMP_FX").unwrap_or_default();
    if let (false, Some(n)) = (fx.is_empty(), name.as_deref()) {
        if std::env::var("MIRDUMP_FX_CRATES").unwrap_or_default().split(',').any(|c| c == n) {
            let out = format!("{fx}/{n}.fx");
            return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Fx { out }));
        }
    }
    match name.as_deref() {
        Some(n) if n == want && !out.is_empty() => {
            return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }));
        }
        Some("structmeta") => {
            return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
        }
        _ => {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
            eprintln!("mirdump: cannot exec rustc: {e}");
            std::process::exit(2);
        }
    }
}
