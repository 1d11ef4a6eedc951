// MIR dumper: a rustc driver that writes, as JSON, the resolved (and, from non-generic roots,
// monomorphic) MIR of every function of the `ibig` crate and of everything those functions reach.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_session;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar, AllocRange};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgs, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, TypeVisitableExt};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_abi::{FieldIdx, Size, VariantIdx, Variants, TagEncoding};
use std::collections::HashMap;
use std::fmt::Write as _;

enum J { Null, B(bool), N(String), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn n<T: std::fmt::Display>(x: T) -> J { J::N(x.to_string()) }
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => { write!(o, "\\u{:04x}", c as u32).unwrap(); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } write!(o, "\"{}\":", k).unwrap(); x.w(o); } o.push('}'); }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_js: Vec<J>,
    insts: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    work: Vec<(Instance<'tcx>, TypingEnv<'tcx>)>,
    fn_js: Vec<J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) { return i; }
        let i = self.type_js.len();
        self.types.insert(t, i);
        self.type_js.push(J::Null);
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("n", s(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(it) => { o.push(("k", s("int"))); o.push(("bits", n(it.bit_width().unwrap_or(tcx.data_layout.pointer_size().bits())))); }
            ty::Uint(it) => { o.push(("k", s("uint"))); o.push(("bits", n(it.bit_width().unwrap_or(tcx.data_layout.pointer_size().bits())))); }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => { let e = self.ty(e, env); o.push(("k", s("slice"))); o.push(("e", n(e))); }
            ty::Array(e, len) => {
                let e = self.ty(e, env); o.push(("k", s("array"))); o.push(("e", n(e)));
                o.push(("len", match len.try_to_target_usize(tcx) { Some(l) => n(l), None => J::Null }));
            }
            ty::Ref(_, e, m) => { let e = self.ty(e, env); o.push(("k", s("ref"))); o.push(("e", n(e))); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(e, m) => { let e = self.ty(e, env); o.push(("k", s("ptr"))); o.push(("e", n(e))); o.push(("mut", J::B(m.is_mut()))); }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| n(self.ty(t, env))).collect();
                o.push(("k", s("tuple"))); o.push(("f", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("def", s(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let targs: Vec<J> = args.types().map(|t| n(self.ty(t, env))).collect();
                o.push(("args", J::A(targs)));
                let mut vs = vec![];
                let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![] };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = match tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)) { Ok(x) => x, Err(_) => ft };
                        fs.push(J::A(vec![s(f.name.to_string()), n(self.ty(ft, env))]));
                    }
                    let d = if def.is_enum() { n(discrs[vi.index()]) } else { n(0) };
                    vs.push(J::A(vec![s(v.name.to_string()), d, J::A(fs)]));
                }
                o.push(("v", J::A(vs)));
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.path(did))));
                let v: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| n(self.ty(t, env))).collect();
                o.push(("f", J::A(v)));
                let kind = args.as_closure().kind();
                let inst = Instance::resolve_closure(tcx, did, args, kind);
                let f = self.inst(inst, env);
                o.push(("fn", n(f)));
                o.push(("ck", s(format!("{:?}", kind))));
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                let f = self.resolve(did, args.no_bound_vars().unwrap(), env);
                o.push(("fn", f));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_js[i] = J::O(o);
        i
    }

    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        // fully monomorphic instances share one typing environment
        let env = if i.has_non_region_param() { env } else { TypingEnv::fully_monomorphized() };
        if let Some(&k) = self.insts.get(&(i, env)) { return k; }
        let k = self.fn_js.len();
        self.insts.insert((i, env), k);
        self.fn_js.push(J::Null);
        self.work.push((i, env));
        k
    }

    fn resolve(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let args = self.tcx.erase_and_anonymize_regions(args);
        match self.tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                match Instance::try_resolve(self.tcx, env, did, args) {
                    Ok(Some(i)) => n(self.inst(i, env)),
                    _ => {
                        let t = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(did, args));
                        let self_ty = args.types().next().map(|t| self.ty(t, env));
                        J::O(vec![("unres", s(self.path(did))), ("full", s(t)), ("self", self_ty.map_or(J::Null, |x| n(x)))])
                    }
                }
            }
            DefKind::Ctor(of, _) => {
                let p = self.path(did);
                let _ = of;
                match Instance::try_resolve(self.tcx, env, did, args) {
                    Ok(Some(i)) => n(self.inst(i, env)),
                    _ => J::O(vec![("unres", s(p))]),
                }
            }
            k => J::O(vec![("unres", s(format!("{:?}", k)))]),
        }
    }

    fn val_at(&mut self, aid: AllocId, off: Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 { return J::Null; }
        let GlobalAlloc::Memory(alloc) = tcx.global_alloc(aid) else { return J::Null };
        let alloc = alloc.inner();
        let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else { return J::Null };
        if layout.is_zst() { return J::O(vec![("zst", n(self.ty(t, env)))]); }
        let rd = |size: Size, off: Size, prov: bool| alloc.read_scalar(&tcx, AllocRange { start: off, size }, prov).ok();
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match rd(layout.size, off, false) { Some(Scalar::Int(i)) => self.scalar_int(i, t), _ => J::Null }
            }
            ty::Array(e, len) => {
                let Ok(el) = tcx.layout_of(env.as_query_input(e)) else { return J::Null };
                let len = match len.try_to_target_usize(tcx) {
                    Some(l) => l,
                    None if el.size.bytes() > 0 => layout.size.bytes() / el.size.bytes(),
                    None => return J::Null,
                };
                let v = (0..len).map(|i| self.val_at(aid, off + el.size * i, e, env, depth + 1)).collect();
                J::O(vec![("arr", J::A(v))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().enumerate().map(|(i, ft)| self.val_at(aid, off + layout.fields.offset(i), ft, env, depth + 1)).collect();
                J::O(vec![("agg", J::A(v)), ("var", n(0))])
            }
            ty::Adt(def, args) if !def.is_union() => {
                let vi = match layout.variants {
                    Variants::Single { index } => index,
                    Variants::Multiple { tag, ref tag_encoding, tag_field, .. } => {
                        let toff = off + layout.fields.offset(tag_field.index());
                        let Some(Scalar::Int(tv)) = rd(tag.size(&tcx), toff, false) else { return J::Null };
                        let tv = tv.to_bits(tag.size(&tcx));
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let Some((vi, _)) = def.discriminants(tcx).find(|(_, d)| tag.size(&tcx).truncate(d.val) == tv) else { return J::Null };
                                vi
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = tag.size(&tcx).truncate(tv.wrapping_sub(*niche_start));
                                let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if rel <= cnt { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                            }
                        }
                    }
                    Variants::Empty => return J::Null,
                };
                let vl = layout.for_variant(&ty::layout::LayoutCx::new(tcx, env), vi);
                let fs: Vec<_> = def.variant(vi).fields.iter().map(|f| f.ty(tcx, args).skip_norm_wip()).collect();
                let mut v = vec![];
                for (i, ft) in fs.into_iter().enumerate() {
                    let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                    v.push(self.val_at(aid, off + vl.fields.offset(i), ft, env, depth + 1));
                }
                J::O(vec![("agg", J::A(v)), ("var", n(vi.as_u32()))])
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let ps = tcx.data_layout.pointer_size();
                let Some(Scalar::Ptr(p, _)) = rd(ps, off, true) else { return J::Null };
                let (prov, poff) = p.prov_and_relative_offset();
                let meta = if layout.size > ps { match rd(ps, off + ps, false) { Some(Scalar::Int(i)) => Some(i.to_bits(ps) as u64), _ => None } } else { None };
                self.deref_val(prov.alloc_id(), poff, meta, e, env, depth + 1)
            }
            _ => J::Null,
        }
    }

    fn deref_val(&mut self, aid: AllocId, off: Size, meta: Option<u64>, e: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(alloc) => match *e.kind() {
                ty::Str => {
                    let len = meta.unwrap_or(0) as usize;
                    let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + len);
                    J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))])
                }
                ty::Slice(el) => {
                    let Ok(l) = tcx.layout_of(env.as_query_input(el)) else { return J::Null };
                    let v = (0..meta.unwrap_or(0)).map(|i| self.val_at(aid, off + l.size * i, el, env, depth)).collect();
                    J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))])
                }
                _ => J::O(vec![("ref", self.val_at(aid, off, e, env, depth)), ("al", n(aid.0))]),
            },
            GlobalAlloc::Static(d) => J::O(vec![("static", s(self.path(d))), ("mut", J::B(tcx.is_mutable_static(d)))]),
            GlobalAlloc::Function { instance } => { let f = self.inst(instance, env); J::O(vec![("fnp", n(f))]) }
            _ => J::Null,
        }
    }

    fn scalar_int(&self, i: ty::ScalarInt, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Int(_) => n(i.to_int(i.size())),
            ty::Bool => J::B(i.to_bits(i.size()) != 0),
            _ => n(i.to_bits(i.size())),
        }
    }

    fn konst(&mut self, c: mir::Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t, env);
        let mut o = vec![("t", n(ti))];
        if let ty::FnDef(..) | ty::Closure(..) = t.kind() { return J::O(o); }
        let what = match c {
            mir::Const::Unevaluated(u, _) => if u.promoted.is_some() { None } else { Some(self.path(u.def)) },
            _ => None,
        };
        if let Some(w) = what { o.push(("name", s(w))); }
        let v = match c.eval(tcx, env, rustc_span::DUMMY_SP) {
            Ok(mir::ConstValue::Scalar(Scalar::Int(i))) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => self.scalar_int(i, t),
                ty::Adt(def, _) if def.is_enum() => {
                    // a fieldless or scalar-sized enum
                    let bits = i.to_bits(i.size());
                    let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else { return J::O(o) };
                    let vi = match layout.variants {
                        Variants::Single { index } => Some(index),
                        Variants::Multiple { ref tag_encoding, .. } => match tag_encoding {
                            TagEncoding::Direct => def.discriminants(tcx).find(|(_, d)| i.size().truncate(d.val) == bits).map(|x| x.0),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = i.size().truncate(bits.wrapping_sub(*niche_start));
                                let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                Some(if rel <= cnt { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant })
                            }
                        },
                        _ => None,
                    };
                    match vi {
                        Some(vi) if def.variant(vi).fields.is_empty() => J::O(vec![("agg", J::A(vec![])), ("var", n(vi.as_u32()))]),
                        Some(vi) => J::O(vec![("scalaragg", n(bits)), ("var", n(vi.as_u32()))]),
                        None => J::Null,
                    }
                }
                _ => J::O(vec![("scalaragg", n(i.to_bits(i.size())))]),
            },
            Ok(mir::ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.prov_and_relative_offset();
                match t.builtin_deref(true) { Some(e) => self.deref_val(prov.alloc_id(), off, None, e, env, 0), None => J::Null }
            }
            Ok(mir::ConstValue::ZeroSized) => J::O(vec![("zst", n(ti))]),
            Ok(mir::ConstValue::Slice { alloc_id, meta }) => {
                match t.builtin_deref(true) { Some(e) => self.deref_val(alloc_id, Size::ZERO, Some(meta), e, env, 0), None => J::Null }
            }
            Ok(mir::ConstValue::Indirect { alloc_id, offset }) => self.val_at(alloc_id, offset, t, env, 0),
            Err(_) => J::Null,
        };
        o.push(("v", v));
        J::O(o)
    }

    fn place(&mut self, b: &mir::Body<'tcx>, p: mir::Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let npt = pt.projection_ty(self.tcx, e);
            let ti = self.ty(npt.ty, env);
            pr.push(match e {
                mir::ProjectionElem::Deref => J::A(vec![s("d"), n(ti)]),
                mir::ProjectionElem::Field(f, _) => J::A(vec![s("f"), n(ti), n(f.as_u32())]),
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(ti), n(l.as_u32())]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), n(ti), n(offset), J::B(from_end)]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), n(ti), n(from), n(to), J::B(from_end)]),
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![s("dc"), n(ti), n(v.as_u32())]),
                _ => J::A(vec![s("x"), n(ti)]),
            });
            pt = npt;
        }
        let ti = self.ty(pt.ty, env);
        J::A(vec![n(p.local.as_u32()), J::A(pr), n(ti)])
    }

    fn op(&mut self, b: &mir::Body<'tcx>, o: &mir::Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("cp"), self.place(b, *p, env)]),
            mir::Operand::Move(p) => J::A(vec![s("mv"), self.place(b, *p, env)]),
            mir::Operand::Constant(c) => J::A(vec![s("k"), self.konst(c.const_, env)]),
            mir::Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }

    fn rv(&mut self, b: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![s("use"), self.op(b, o, env)]),
            Repeat(o, c) => J::A(vec![s("rep"), self.op(b, o, env), match c.try_to_target_usize(self.tcx) { Some(l) => n(l), None => J::Null }]),
            Ref(_, k, p) => J::A(vec![s("ref"), self.place(b, *p, env), J::B(matches!(k, mir::BorrowKind::Mut { .. }))]),
            Reborrow(_, m, p) => J::A(vec![s("reb"), self.place(b, *p, env), J::B(m.is_mut())]),
            RawPtr(k, p) => J::A(vec![s("raw"), self.place(b, *p, env), J::B(matches!(k, mir::RawPtrKind::Mut))]),
            ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(b, o, env), n(self.ty(*t, env))]),
            BinaryOp(op, lr) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.op(b, &lr.0, env), self.op(b, &lr.1, env)]),
            UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{:?}", op)), self.op(b, o, env)]),
            Discriminant(p) => J::A(vec![s("disc"), self.place(b, *p, env)]),
            CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(b, *p, env)])]),
            WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(b, o, env)]),
            Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(b, o, env)).collect();
                let (kn, vi, fi) = match **k {
                    mir::AggregateKind::Array(_) => ("array", 0, None),
                    mir::AggregateKind::Tuple => ("tuple", 0, None),
                    mir::AggregateKind::Adt(_, v, _, _, f) => ("adt", v.as_u32(), f.map(|f: FieldIdx| f.as_u32())),
                    mir::AggregateKind::Closure(..) => ("closure", 0, None),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                let t = r.ty(&b.local_decls, self.tcx);
                J::A(vec![s("agg"), s(kn), n(self.ty(t, env)), n(vi), fi.map_or(J::Null, |x| n(x)), J::A(v)])
            }
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        n(l.line)
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, k: usize) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![("id", n(k)), ("path", s(self.path(did)))];
        o.push(("full", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(did, inst.args)))));
        o.push(("local", J::B(did.is_local())));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::LlvmIntrinsic(..) => "llvmintrinsic",
            _ => "shim",
        };
        o.push(("kind", s(kind)));
        o.push(("crate", s(tcx.crate_name(did.krate).to_string())));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(did).instantiate(tcx, inst.args).skip_norm_wip();
            let sig = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(sig)));
            if let Ok(sig) = sig {
                let ins: Vec<J> = sig.inputs().iter().map(|t| n(self.ty(*t, env))).collect();
                o.push(("sig", J::A(vec![J::A(ins), n(self.ty(sig.output(), env))])));
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(did) { o.push(("trait", s(self.path(tr)))); }
        if let Some(im) = tcx.impl_of_assoc(did) {
            o.push(("impl_self", n({ let t = tcx.type_of(im).instantiate_identity().skip_norm_wip(); self.ty(t, env) })));
            if tcx.impl_is_of_trait(im) {
                let tr = tcx.impl_trait_ref(im).instantiate(tcx, &inst.args).skip_norm_wip();
                o.push(("impl_trait", s(self.path(tr.def_id))));
                o.push(("impl_tref", s(with_no_trimmed_paths!(tr.to_string()))));
                let a: Vec<J> = tr.args.types().map(|t| n(self.ty(t, env))).collect();
                o.push(("impl_targs", J::A(a)));
                if did.is_local() {
                    o.push(("derived", J::B(tcx.is_builtin_derived(im))));
                }
            }
        }
        if did.is_local() {
            let sm = tcx.sess.source_map();
            let sp = tcx.def_span(did).source_callsite();
            let l = sm.lookup_char_pos(sp.lo());
            o.push(("file", s(format!("{}", l.file.name.prefer_local_unconditionally()))));
            o.push(("line", n(l.line)));
            let ev = tcx.effective_visibilities(());
            let nm = did.as_local().unwrap();
            let reach = ev.is_reachable(nm);
            o.push(("reach", J::B(reach)));
            let gens = tcx.generics_of(tcx.typeck_root_def_id(did));
            o.push(("generic", J::B(gens.requires_monomorphization(tcx))));
        }
        o.push(("poly", J::B(inst.has_non_region_param())));
        let skip = matches!(inst.def, InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(..))
            || (matches!(inst.def, InstanceKind::Item(_)) && !tcx.is_mir_available(did))
            || tcx.is_foreign_item(did);
        if !skip {
            let body = tcx.instance_mir(inst.def);
            let body = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body.clone()));
            if let Ok(body) = body {
                let b = &body;
                o.push(("argc", n(b.arg_count)));
                if let Some(sp) = b.spread_arg { o.push(("spread", n(sp.as_u32()))); }
                let ls: Vec<J> = b.local_decls.iter().map(|d| n(self.ty(d.ty, env))).collect();
                o.push(("locals", J::A(ls)));
                let mut names = vec![];
                for v in &b.var_debug_info {
                    if let mir::VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() {
                        names.push(J::A(vec![n(p.local.as_u32()), s(v.name.to_string())]));
                    } }
                }
                o.push(("names", J::A(names)));
                let mut bbs = vec![];
                for bb in b.basic_blocks.iter() {
                    let mut ss = vec![];
                    for st in &bb.statements {
                        let ln = if did.is_local() { self.line(st.source_info.span) } else { n(0) };
                        match &st.kind {
                            mir::StatementKind::Assign(a) => ss.push(J::A(vec![s("="), self.place(b, a.0, env), self.rv(b, &a.1, env), ln])),
                            mir::StatementKind::SetDiscriminant { place, variant_index } => ss.push(J::A(vec![s("sd"), self.place(b, **place, env), n(variant_index.as_u32()), ln])),
                            mir::StatementKind::Intrinsic(i) => match &**i {
                                mir::NonDivergingIntrinsic::Assume(op) => ss.push(J::A(vec![s("assume"), self.op(b, op, env), J::Null, ln])),
                                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => ss.push(J::A(vec![s("cno"), self.op(b, &c.src, env), J::A(vec![self.op(b, &c.dst, env), self.op(b, &c.count, env)]), ln])),
                            },
                            mir::StatementKind::StorageDead(l) => ss.push(J::A(vec![s("dead"), n(l.as_u32())])),
                            _ => {}
                        }
                    }
                    let t = bb.terminator();
                    let ln = if did.is_local() { self.line(t.source_info.span) } else { n(0) };
                    let uw = |u: &mir::UnwindAction| match u { mir::UnwindAction::Cleanup(b) => n(b.as_u32()), _ => J::Null };
                    let tj = match &t.kind {
                        mir::TerminatorKind::Goto { target, .. } => vec![s("goto"), n(target.as_u32())],
                        mir::TerminatorKind::SwitchInt { discr, targets } => {
                            let dt = discr.ty(&b.local_decls, tcx);
                            let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![n(v), n(t.as_u32())])).collect();
                            vec![s("sw"), self.op(b, discr, env), J::A(v), n(targets.otherwise().as_u32()), n(self.ty(dt, env))]
                        }
                        mir::TerminatorKind::Return => vec![s("ret")],
                        mir::TerminatorKind::Unreachable => vec![s("unreachable")],
                        mir::TerminatorKind::UnwindResume => vec![s("resume")],
                        mir::TerminatorKind::UnwindTerminate(_) => vec![s("abort")],
                        mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                            vec![s("drop"), self.place(b, *place, env), n(target.as_u32()), uw(unwind)]
                        }
                        mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                            let a: Vec<J> = args.iter().map(|x| self.op(b, &x.node, env)).collect();
                            let ft = func.ty(&b.local_decls, tcx);
                            let f = match *ft.kind() {
                                ty::FnDef(d, ar) => self.resolve(d, ar.no_bound_vars().unwrap(), env),
                                _ => J::O(vec![("ptr", self.op(b, func, env))]),
                            };
                            vec![s("call"), f, J::A(a), self.place(b, *destination, env), target.map_or(J::Null, |t| n(t.as_u32())), uw(unwind)]
                        }
                        mir::TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                            let m = match &**msg {
                                mir::AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.op(b, len, env), self.op(b, index, env)]),
                                mir::AssertKind::Overflow(bo, ..) => J::A(vec![s("overflow"), s(format!("{:?}", bo))]),
                                mir::AssertKind::OverflowNeg(_) => J::A(vec![s("overflow"), s("Neg")]),
                                mir::AssertKind::DivisionByZero(_) => J::A(vec![s("div0")]),
                                mir::AssertKind::RemainderByZero(_) => J::A(vec![s("rem0")]),
                                m => J::A(vec![s(format!("{:?}", m))]),
                            };
                            vec![s("assert"), self.op(b, cond, env), J::B(*expected), m, n(target.as_u32()), uw(unwind)]
                        }
                        mir::TerminatorKind::InlineAsm { .. } => vec![s("asm")],
                        _ => vec![s("other")],
                    };
                    bbs.push(J::A(vec![J::A(ss), J::A(tj), ln, J::B(bb.is_cleanup)]));
                }
                o.push(("bbs", J::A(bbs)));
            }
        }
        self.fn_js[k] = J::O(o);
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, types: HashMap::new(), type_js: vec![], insts: HashMap::new(), work: vec![], fn_js: vec![] };
    let mut statics = vec![];
    let mut adts = vec![];
    let mut unsafes = vec![];
    let _ = &mut unsafes as &mut Vec<J>;
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                if !tcx.is_mir_available(d) { continue; }
                let env = TypingEnv::post_analysis(tcx, d);
                let args = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, d));
                let i = Instance::new_raw(d, args);
                cx.inst(i, env);
            }
            DefKind::Static { mutability, nested, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::fully_monomorphized();
                let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                let freeze = t.is_freeze(tcx, env);
                let val = if !mutability.is_mut() && freeze {
                    match tcx.eval_static_initializer(d) {
                        Ok(a) => { let aid = tcx.reserve_and_set_memory_alloc(a); cx.val_at(aid, Size::ZERO, t, env, 0) }
                        Err(_) => J::Null,
                    }
                } else { J::Null };
                statics.push(J::O(vec![("v", val), ("path", s(cx.path(d))), ("mut", J::B(mutability.is_mut())), ("ty", n(cx.ty(t, env))), ("freeze", J::B(freeze)), ("nested", J::B(nested))]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let env = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let freeze = t.is_freeze(tcx, env);
                let reach = tcx.effective_visibilities(()).is_reachable(ld);
                let ti = cx.ty(t, env);
                let flds: Vec<J> = tcx.adt_def(d).all_fields().map(|f| {
                    let pv = f.vis.is_public();
                    J::A(vec![s(f.name.to_string()), J::B(pv)])
                }).collect();
                let impls_auto = |nm: rustc_span::Symbol| -> J {
                    match tcx.get_diagnostic_item(nm) {
                        Some(tr) => {
                            let infcx_ok = tcx.type_implements_auto(tr, t, env);
                            J::B(infcx_ok)
                        }
                        None => J::Null,
                    }
                };
                let send = impls_auto(rustc_span::sym::Send);
                let sync = impls_auto(rustc_span::sym::Sync);
                adts.push(J::O(vec![("path", s(cx.path(d))), ("ty", n(ti)), ("freeze", J::B(freeze)), ("reach", J::B(reach)), ("fields", J::A(flds)), ("send", send), ("sync", sync)]));
            }
            _ => {}
        }
    }
    while let Some((i, env)) = cx.work.pop() {
        let k = cx.insts[&(i, env)];
        cx.body(i, env, k);
    }
    let mut impls = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::post_analysis(tcx, d);
            let st = cx.ty(tr.self_ty(), env);
            let safety = tcx.impl_trait_header(d).safety.is_safe();
            impls.push(J::O(vec![("trait", s(cx.path(tr.def_id))), ("self", n(st)), ("tref", s(with_no_trimmed_paths!(tr.to_string()))), ("safe", J::B(safety)), ("derived", J::B(tcx.is_builtin_derived(d)))]));
        }
    }
    while let Some((i, env)) = cx.work.pop() {
        let k = cx.insts[&(i, env)];
        cx.body(i, env, k);
    }
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("ptr_bits", n(tcx.data_layout.pointer_size().bits())),
        ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
        ("overflow_checks", J::B(tcx.sess.overflow_checks())),
        ("statics", J::A(statics)), ("adts", J::A(adts)), ("impls", J::A(impls)),
        ("types", J::A(std::mem::take(&mut cx.type_js))), ("fns", J::A(std::mem::take(&mut cx.fn_js))),
    ]);
    let mut st = String::new();
    root.w(&mut st);
    std::fs::write(out, st).unwrap();
}

trait AutoExt<'tcx> { fn type_implements_auto(self, tr: DefId, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> bool; }
impl<'tcx> AutoExt<'tcx> for TyCtxt<'tcx> {
    fn type_implements_auto(self, tr: DefId, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> bool {
        let (infcx, penv) = self.infer_ctxt().build_with_typing_env(env);
        infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
    }
}

struct Cb { out: String }
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        if !self.out.is_empty() && tcx.crate_name(LOCAL_CRATE).as_str() == "ibig" {
            dump(tcx, &self.out);
        }
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    rustc_driver_impl::catch_with_exit_code(move || rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out }))
}
