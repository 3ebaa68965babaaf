#![feature(rustc_private)]
#![allow(rustc::internal)]
//! Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER, compiles the crate as usual and, after
//! analysis, dumps the type-checked program (MIR bodies with resolved callees, ADTs, impls,
//! evaluated constants) as one JSON file per compiled crate.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name == "build_script_build" {
            return rustc_driver::Compilation::Continue;
        }
        if let Ok(out) = std::env::var("VDRIVER_OUT") {
            let is_bin = tcx.entry_fn(()).is_some();
            let mut d = D {
                tcx,
                types: HashMap::new(),
                table: vec![],
                env: ty::TypingEnv::fully_monomorphized(),
            };
            let j = d.krate(&name, is_bin);
            let mut s = String::new();
            j.write(&mut s);
            let f = format!("{out}/{name}.{}.json", if is_bin { "bin" } else { "lib" });
            std::fs::write(f, s).unwrap();
        }
        rustc_driver::Compilation::Continue
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    table: Vec<J>,
    env: ty::TypingEnv<'tcx>,
}

fn pstr(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> D<'tcx> {
    fn p(&self, d: DefId) -> J {
        J::S(pstr(self.tcx, d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.table.len();
        self.table.push(J::Null);
        self.types.insert(t, i);
        let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(s))];
        let k: &str = match t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Str => "str",
            ty::Never => "never",
            ty::Int(x) => {
                o.push(("bits", J::u(x.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(true)));
                "int"
            }
            ty::Uint(x) => {
                o.push(("bits", J::u(x.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(false)));
                "int"
            }
            ty::Float(_) => "float",
            ty::Adt(d, a) => {
                o.push(("path", self.p(d.did())));
                o.push(("local", J::B(d.did().is_local())));
                let a = self.args(a);
                o.push(("args", a));
                "adt"
            }
            ty::Ref(_, t2, m) => {
                let t2 = self.ty(*t2);
                o.push(("t", J::u(t2)));
                o.push(("mut", J::B(m.is_mut())));
                "ref"
            }
            ty::RawPtr(t2, m) => {
                let t2 = self.ty(*t2);
                o.push(("t", J::u(t2)));
                o.push(("mut", J::B(m.is_mut())));
                "ptr"
            }
            ty::Slice(t2) => {
                let t2 = self.ty(*t2);
                o.push(("t", J::u(t2)));
                "slice"
            }
            ty::Array(t2, n) => {
                let t2 = self.ty(*t2);
                o.push(("t", J::u(t2)));
                match n.try_to_target_usize(self.tcx) {
                    Some(n) => o.push(("n", J::U(n as u128))),
                    None => o.push(("np", J::S(format!("{n}")))),
                }
                "array"
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| J::u(self.ty(x))).collect();
                o.push(("ts", J::A(v)));
                "tuple"
            }
            ty::Closure(d, _) => {
                o.push(("key", J::S(self.tcx.def_path(*d).to_string_no_crate_verbose())));
                o.push(("path", self.p(*d)));
                "closure"
            }
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                let c = self.callee(*d, a);
                o.push(("callee", c));
                let sig = self.tcx.instantiate_bound_regions_with_erased(t.fn_sig(self.tcx));
                let ins: Vec<J> = sig.inputs().iter().map(|t| J::u(self.ty(*t))).collect();
                o.push(("in", J::A(ins)));
                let out = self.ty(sig.output());
                o.push(("out", J::u(out)));
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Param(p) => {
                o.push(("name", J::S(p.name.to_string())));
                "param"
            }
            ty::Alias(..) => "alias",
            ty::Dynamic(preds, ..) => {
                if let Some(d) = preds.principal_def_id() {
                    o.push(("path", self.p(d)));
                }
                "dyn"
            }
            _ => "other",
        };
        o.push(("k", J::s(k)));
        self.table[i] = J::O(o);
        i
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(J::u(self.ty(t))),
                GenericArgKind::Const(c) => v.push(J::S(format!("{c}"))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("p", self.p(d)), ("local", J::B(d.is_local()))];
        let aj = self.args(a);
        o.push(("args", aj));
        let tc = |d: DefId| {
            matches!(
                tcx.def_kind(d),
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure
            ) && tcx
                .codegen_fn_attrs(d)
                .flags
                .contains(CodegenFnAttrFlags::TRACK_CALLER)
        };
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("tr", self.p(t)));
            o.push(("name", J::S(tcx.item_name(d).to_string())));
        } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("name", J::S(tcx.item_name(d).to_string())));
        }
        if d.is_local() {
            o.push(("pk", J::S(tcx.def_path(d).to_string_no_crate_verbose())));
        }
        if tc(d) {
            o.push(("tc", J::B(true)));
        }
        let has_bad = a.has_escaping_bound_vars() || a.has_infer();
        if !has_bad && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let ea = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, ea) {
                let rd = inst.def_id();
                o.push(("rp", self.p(rd)));
                o.push(("rlocal", J::B(rd.is_local())));
                if rd.is_local() {
                    o.push(("rk", J::S(tcx.def_path(rd).to_string_no_crate_verbose())));
                }
                let ra = self.args(inst.args);
                o.push(("rargs", ra));
                if tc(rd) {
                    o.push(("rtc", J::B(true)));
                }
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    o.push(("virt", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    fn span(&self, sp: Span) -> Vec<(&'static str, J)> {
        let sm = self.tcx.sess.source_map();
        let cs = sp.source_callsite();
        let lo = sm.lookup_char_pos(cs.lo());
        let mut o = vec![("ln", J::u(lo.line))];
        let mut x = vec![];
        for e in sp.macro_backtrace() {
            x.push(J::S(format!("{}", e.kind.descr())));
        }
        if !x.is_empty() {
            o.push(("x", J::A(x)));
        }
        o
    }

    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut cur = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push(J::s("*")),
                ProjectionElem::Field(f, t) => {
                    let name = match cur.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variants()
                                .get(v)
                                .and_then(|v| v.fields.get(f))
                                .map(|f| f.name.to_string())
                        }
                        _ => None,
                    };
                    let t = self.ty(t);
                    let mut o = vec![("f", J::u(f.as_usize())), ("t", J::u(t))];
                    if let Some(n) = name {
                        o.push(("n", J::S(n)));
                    }
                    pr.push(J::O(o));
                }
                ProjectionElem::Index(l) => pr.push(J::O(vec![("i", J::u(l.as_usize()))])),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => pr.push(J::O(vec![(
                    "ci",
                    J::A(vec![
                        J::U(offset as u128),
                        J::U(min_length as u128),
                        J::B(from_end),
                    ]),
                )])),
                ProjectionElem::Subslice { from, to, from_end } => pr.push(J::O(vec![(
                    "ss",
                    J::A(vec![
                        J::U(from as u128),
                        J::U(to as u128),
                        J::B(from_end),
                    ]),
                )])),
                ProjectionElem::Downcast(s, v) => pr.push(J::O(vec![
                    ("d", J::u(v.as_usize())),
                    ("vn", J::S(s.map(|s| s.to_string()).unwrap_or_default())),
                ])),
                _ => pr.push(J::s("?")),
            }
            cur = cur.projection_ty(self.tcx, e);
        }
        if pr.is_empty() {
            J::O(vec![("l", J::u(p.local.as_usize()))])
        } else {
            J::O(vec![("l", J::u(p.local.as_usize())), ("p", J::A(pr))])
        }
    }

    fn scalar(&self, t: Ty<'tcx>, s: Scalar) -> Option<(&'static str, J)> {
        match s {
            Scalar::Int(i) => {
                let sz = i.size();
                Some(if t.is_signed() {
                    ("v", J::I(i.to_int(sz)))
                } else {
                    ("v", J::U(i.to_bits(sz)))
                })
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Memory(a)) => {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() {
                            let n = a.len();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                (off.bytes() as usize)..n,
                            );
                            return Some((
                                "bytes",
                                J::A(b.iter().map(|x| J::U(*x as u128)).collect()),
                            ));
                        }
                        None
                    }
                    _ => None,
                }
            }
        }
    }

    fn konst(&mut self, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("t", J::u(ti))];
        match c {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("pr", J::u(p.as_usize())));
                    o.push(("d", self.p(u.def)));
                } else {
                    o.push(("d", self.p(u.def)));
                    let a = self.args(u.args);
                    o.push(("da", a));
                }
            }
            Const::Ty(_, c) => {
                if let ty::ConstKind::Param(p) = c.kind() {
                    o.push(("cp", J::S(p.name.to_string())));
                }
            }
            _ => {}
        }
        let poly = match c {
            Const::Unevaluated(u, _) => u.args.has_param(),
            Const::Ty(_, c) => c.has_param(),
            _ => false,
        };
        if !poly && !t.has_param() {
            if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                match v {
                    ConstValue::Scalar(s) => {
                        if let Some(x) = self.scalar(t, s) {
                            o.push(x);
                        }
                    }
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let is_str =
                                matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                            if is_str {
                                o.push(("str", J::S(String::from_utf8_lossy(b).into_owned())));
                            } else {
                                o.push((
                                    "bytes",
                                    J::A(b.iter().map(|x| J::U(*x as u128)).collect()),
                                ));
                            }
                        }
                    }
                    ConstValue::Indirect { alloc_id, .. } => {
                        if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                            let a = a.inner();
                            if a.provenance().ptrs().is_empty() && a.len() < 4096 {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                o.push((
                                    "mem",
                                    J::A(b.iter().map(|x| J::U(*x as u128)).collect()),
                                ));
                            }
                        }
                    }
                    ConstValue::ZeroSized => {}
                }
                if matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) {
                    if let Some(d) = self.destructure(v, t, 0) {
                        o.push(("ds", d));
                    }
                }
            }
        }
        J::O(o)
    }

    /// The constant as a tree of variants, fields and scalars.
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("t", J::u(ti))];
        match t.kind() {
            ty::Adt(a, _) if a.is_union() => return None,
            ty::Array(_, n) if n.try_to_target_usize(tcx).is_none_or(|n| n > 64) => return None,
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) if depth < 6 => {
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                if let Some(vi) = d.variant {
                    o.push(("vi", J::u(vi.as_usize())));
                }
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.destructure(*fv, *ft, depth + 1)?);
                }
                o.push(("f", J::A(fs)));
            }
            _ => {
                if let ConstValue::Scalar(s) = v {
                    if let Some(x) = self.scalar(t, s) {
                        o.push(x);
                    }
                } else if let Some(b) = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str())
                    .then(|| v.try_get_slice_bytes_for_diagnostics(tcx))
                    .flatten()
                {
                    o.push(("str", J::S(String::from_utf8_lossy(b).into_owned())));
                }
            }
        }
        Some(J::O(o))
    }

    fn op(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(p, b))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p, b))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(&c.const_))]),
            Operand::RuntimeChecks(r) => J::O(vec![("rc", J::S(format!("{r:?}")))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match r {
            Rvalue::Use(x, _) => {
                o.push(("o", self.op(x, b)));
                "use"
            }
            Rvalue::Repeat(x, n) => {
                o.push(("o", self.op(x, b)));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::U(n as u128)));
                }
                "repeat"
            }
            Rvalue::Ref(_, bk, p) => {
                o.push(("pl", self.place(p, b)));
                o.push(("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))));
                "ref"
            }
            Rvalue::RawPtr(_, p) => {
                o.push(("pl", self.place(p, b)));
                "rawptr"
            }
            Rvalue::Cast(ck, x, t) => {
                o.push(("o", self.op(x, b)));
                let t = self.ty(*t);
                o.push(("t", J::u(t)));
                o.push(("ck", J::S(format!("{ck:?}"))));
                "cast"
            }
            Rvalue::BinaryOp(bop, xy) => {
                o.push(("op", J::S(format!("{bop:?}"))));
                o.push(("a", self.op(&xy.0, b)));
                o.push(("b", self.op(&xy.1, b)));
                "bin"
            }
            Rvalue::UnaryOp(u, x) => {
                o.push(("op", J::S(format!("{u:?}"))));
                o.push(("o", self.op(x, b)));
                "un"
            }
            Rvalue::Discriminant(p) => {
                o.push(("pl", self.place(p, b)));
                "discr"
            }
            Rvalue::Aggregate(ak, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.op(x, b)).collect();
                o.push(("os", J::A(v)));
                match &**ak {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        o.push(("t", J::u(t)));
                        o.push(("ak", J::s("array")))
                    }
                    AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        o.push(("ak", J::s("adt")));
                        o.push(("path", self.p(*d)));
                        let vd = &self.tcx.adt_def(*d).variant(*v);
                        o.push(("vn", J::S(vd.name.to_string())));
                        o.push(("vi", J::u(v.as_usize())));
                        match af {
                            Some(f) => o.push((
                                "fn",
                                J::A(vec![J::S(vd.fields[*f].name.to_string())]),
                            )),
                            None => o.push((
                                "fn",
                                J::A(vd.fields.iter().map(|f| J::S(f.name.to_string())).collect()),
                            )),
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("ak", J::s("closure")));
                        o.push(("key", J::S(self.tcx.def_path(*d).to_string_no_crate_verbose())));
                        o.push(("path", self.p(*d)));
                    }
                    _ => o.push(("ak", J::s("other"))),
                }
                "agg"
            }
            Rvalue::CopyForDeref(p) => {
                o.push(("o", J::O(vec![("c", self.place(p, b))])));
                "use"
            }
            _ => "other",
        };
        o.insert(0, ("k", J::s(k)));
        J::O(o)
    }

    fn stmt(&mut self, s: &Statement<'tcx>, b: &Body<'tcx>) -> Option<J> {
        let mut o: Vec<(&'static str, J)> = vec![];
        match &s.kind {
            StatementKind::Assign(pr) => {
                o.push(("k", J::s("=")));
                o.push(("pl", self.place(&pr.0, b)));
                o.push(("rv", self.rvalue(&pr.1, b)));
            }
            StatementKind::SetDiscriminant {
                place,
                variant_index,
            } => {
                o.push(("k", J::s("setdiscr")));
                o.push(("pl", self.place(place, b)));
                o.push(("vi", J::u(variant_index.as_usize())));
            }
            StatementKind::StorageDead(l) => {
                o.push(("k", J::s("dead")));
                o.push(("l", J::u(l.as_usize())));
                return Some(J::O(o));
            }
            StatementKind::Intrinsic(i) => {
                if let NonDivergingIntrinsic::Assume(x) = &**i {
                    o.push(("k", J::s("assume")));
                    o.push(("o", self.op(x, b)));
                } else {
                    o.push(("k", J::s("other")));
                }
            }
            _ => return None,
        }
        o.extend(self.span(s.source_info.span));
        Some(J::O(o))
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        let bb = |x: BasicBlock| J::u(x.as_usize());
        let uw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(c) => J::u(c.as_usize()),
            _ => J::Null,
        };
        let k = match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("to", J::A(vec![bb(*target)])));
                "goto"
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("o", self.op(discr, b)));
                let v: Vec<J> = targets
                    .iter()
                    .map(|(v, x)| J::A(vec![J::U(v), bb(x)]))
                    .collect();
                o.push(("vals", J::A(v)));
                o.push(("else", bb(targets.otherwise())));
                "switch"
            }
            TerminatorKind::Return => "return",
            TerminatorKind::Unreachable => "unreachable",
            TerminatorKind::UnwindResume => "resume",
            TerminatorKind::UnwindTerminate(_) => "abort",
            TerminatorKind::Drop {
                place,
                target,
                unwind,
                ..
            } => {
                o.push(("pl", self.place(place, b)));
                o.push(("to", J::A(vec![bb(*target)])));
                o.push(("uw", uw(unwind)));
                "drop"
            }
            TerminatorKind::Call {
                func,
                args,
                destination,
                target,
                unwind,
                ..
            } => {
                o.push(("f", self.op(func, b)));
                let v: Vec<J> = args.iter().map(|a| self.op(&a.node, b)).collect();
                o.push(("args", J::A(v)));
                o.push(("dst", self.place(destination, b)));
                o.push((
                    "to",
                    J::A(target.iter().map(|t| J::u(t.as_usize())).collect()),
                ));
                o.push(("uw", uw(unwind)));
                "call"
            }
            TerminatorKind::Assert {
                cond,
                expected,
                msg,
                target,
                unwind,
            } => {
                o.push(("o", self.op(cond, b)));
                o.push(("exp", J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => vec![
                        J::s("bounds"),
                        self.op(len, b),
                        self.op(index, b),
                    ],
                    AssertKind::Overflow(op, x, y) => vec![
                        J::s("overflow"),
                        J::S(format!("{op:?}")),
                        self.op(x, b),
                        self.op(y, b),
                    ],
                    AssertKind::OverflowNeg(x) => vec![J::s("neg"), self.op(x, b)],
                    AssertKind::DivisionByZero(x) => vec![J::s("div0"), self.op(x, b)],
                    AssertKind::RemainderByZero(x) => vec![J::s("rem0"), self.op(x, b)],
                    AssertKind::MisalignedPointerDereference { .. }
                    | AssertKind::NullPointerDereference
                    | AssertKind::NullReferenceConstructed => vec![J::s("ptr")],
                    AssertKind::InvalidEnumConstruction(_) => vec![J::s("enum")],
                    _ => vec![J::s("other")],
                };
                o.push(("msg", J::A(m)));
                o.push(("to", J::A(vec![bb(*target)])));
                o.push(("uw", uw(unwind)));
                "assert"
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("to", J::A(vec![bb(*real_target)])));
                "goto"
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("to", J::A(vec![bb(*real_target)])));
                "goto"
            }
            _ => "other",
        };
        o.insert(0, ("k", J::s(k)));
        o.extend(self.span(t.source_info.span));
        J::O(o)
    }

    fn body(&mut self, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals: Vec<Vec<(&'static str, J)>> = vec![];
        for l in b.local_decls.iter() {
            let t = self.ty(l.ty);
            locals.push(vec![("t", J::u(t))]);
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(J::O(vec![
                    ("n", J::S(v.name.to_string())),
                    ("pl", self.place(p, b)),
                ]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let st: Vec<J> = bb
                .statements
                .iter()
                .filter_map(|s| self.stmt(s, b))
                .collect();
            let t = self.term(bb.terminator(), b);
            let mut o = vec![("s", J::A(st)), ("t", t)];
            if bb.is_cleanup {
                o.push(("cl", J::B(true)));
            }
            blocks.push(J::O(o));
        }
        vec![
            ("argc", J::u(b.arg_count)),
            ("locals", J::A(locals.into_iter().map(J::O).collect())),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn generics(&self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                v.push(J::S(p.name.to_string()));
            }
        }
        J::A(v)
    }

    fn func(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let mut o: Vec<(&'static str, J)> = vec![("path", self.p(did))];
        o.push(("key", J::S(tcx.def_path(did).to_string_no_crate_verbose())));
        let (ks, is_const) = match kind {
            DefKind::Fn => ("fn", false),
            DefKind::AssocFn => ("fn", false),
            DefKind::Closure => ("closure", false),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                ("const", true)
            }
            DefKind::Ctor(..) => return None,
            DefKind::AnonConst { .. } => ("anon", true),
            _ => return None,
        };
        o.push(("kind", J::s(ks)));
        let sp = tcx.def_span(did);
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        o.push(("file", J::S(format!("{}", lo.file.name.prefer_local_unconditionally()))));
        o.extend(self.span(sp));
        if let Some(par) = tcx.opt_parent(did) {
            o.push(("parent", self.p(par)));
            if kind == DefKind::AssocFn || matches!(kind, DefKind::AssocConst { .. }) {
                if let DefKind::Impl { of_trait } = tcx.def_kind(par) {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    o.push(("self", J::u(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                        o.push(("trait", self.p(tr.def_id)));
                        let a = self.args(tr.args);
                        o.push(("trargs", a));
                    }
                } else if let DefKind::Trait = tcx.def_kind(par) {
                    o.push(("intrait", self.p(par)));
                }
            }
        }
        if ks == "fn" || ks == "const" {
            o.push(("generics", self.generics(did)));
        }
        if ks == "fn" {
            o.push(("name", J::S(tcx.item_name(did).to_string())));
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
            o.push((
                "reach",
                J::B(tcx.effective_visibilities(()).is_reachable(d)),
            ));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| J::u(self.ty(*t))).collect();
            o.push(("in", J::A(ins)));
            let out = self.ty(sig.output());
            o.push(("out", J::u(out)));
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
        }
        self.env = ty::TypingEnv::post_analysis(tcx, did);
        if !tcx.is_mir_available(did) && !is_const {
            return Some(J::O(o));
        }
        let b: &Body<'tcx> = if is_const {
            if ks == "anon" {
                return None;
            }
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                // generic associated const: body is still readable
            }
            tcx.mir_for_ctfe(did)
        } else {
            tcx.optimized_mir(did)
        };
        if is_const && !tcx.generics_of(did).requires_monomorphization(tcx) {
            // evaluated value of the constant
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            if !matches!(kind, DefKind::Static { .. }) {
                let c = Const::from_unevaluated(tcx, did).instantiate_identity().skip_norm_wip();
                let cj = self.konst(&c);
                o.push(("value", cj));
            }
            let ti = self.ty(t);
            o.push(("ty", J::u(ti)));
        }
        o.extend(self.body(b));
        let pm = tcx.promoted_mir(did);
        let mut prs = vec![];
        for pb in pm.iter() {
            prs.push(J::O(self.body(pb)));
        }
        if !prs.is_empty() {
            o.push(("promoted", J::A(prs)));
        }
        Some(J::O(o))
    }

    fn krate(&mut self, name: &str, is_bin: bool) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        for d in tcx.mir_keys(()).iter() {
            if let Some(f) = self.func(*d) {
                fns.push(f);
            }
        }
        self.env = ty::TypingEnv::fully_monomorphized();
        let mut adts = vec![];
        let mut impls = vec![];
        let mut uses = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(did);
                    let mut vs = vec![];
                    for (vi, v) in ad.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ti = self.ty(t);
                            fs.push(J::O(vec![
                                ("n", J::S(f.name.to_string())),
                                ("t", J::u(ti)),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        let mut o = vec![("n", J::S(v.name.to_string())), ("f", J::A(fs))];
                        if ad.is_enum() {
                            let dv = ad.discriminant_for_variant(tcx, vi);
                            o.push(("d", J::U(dv.val)));
                        }
                        vs.push(J::O(o));
                    }
                    let mut o = vec![
                        ("path", self.p(did)),
                        (
                            "kind",
                            J::s(if ad.is_enum() {
                                "enum"
                            } else if ad.is_union() {
                                "union"
                            } else {
                                "struct"
                            }),
                        ),
                        ("variants", J::A(vs)),
                        ("generics", self.generics(did)),
                        ("repr", J::S(format!("{:?}", ad.repr().int))),
                        ("pub", J::B(tcx.visibility(did).is_public())),
                    ];
                    if !tcx.generics_of(did).requires_monomorphization(tcx) {
                        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                        let env = ty::TypingEnv::fully_monomorphized();
                        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                            o.push(("size", J::U(l.size.bytes() as u128)));
                        }
                        let ti = self.ty(t);
                        o.push(("t", J::u(ti)));
                    }
                    let sm = tcx.sess.source_map();
                    let lo = sm.lookup_char_pos(tcx.def_span(did).source_callsite().lo());
                    o.push(("file", J::S(format!("{}", lo.file.name.prefer_local_unconditionally()))));
                    o.extend(self.span(tcx.def_span(did)));
                    adts.push(J::O(o));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(st);
                    let mut o = vec![("self", J::u(ti))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", self.p(tr.def_id)));
                        let a = self.args(tr.args);
                        o.push(("trargs", a));
                    }
                    let items: Vec<J> = tcx
                        .associated_item_def_ids(did)
                        .iter()
                        .map(|i| self.p(*i))
                        .collect();
                    o.push(("items", J::A(items)));
                    let mut types = vec![];
                    for i in tcx.associated_item_def_ids(did) {
                        if tcx.def_kind(*i) == DefKind::AssocTy {
                            let t = tcx.type_of(*i).instantiate_identity().skip_norm_wip();
                            let t = self.ty(t);
                            types.push(J::A(vec![J::S(tcx.item_name(*i).to_string()), J::u(t)]));
                        }
                    }
                    o.push(("types", J::A(types)));
                    o.extend(self.span(tcx.def_span(did)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        // file-inventory: every source file the compilation read
        for f in tcx.sess.source_map().files().iter() {
            let n = format!("{}", f.name.prefer_local_unconditionally());
            if !n.starts_with('<') && !n.starts_with("/rustc") && !n.contains("/.cargo/") && !n.contains("rustlib") {
                uses.push(J::S(n));
            }
        }
        let table = std::mem::take(&mut self.table);
        J::O(vec![
            ("crate", J::s(name)),
            ("bin", J::B(is_bin)),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("files", J::A(uses)),
            ("types", J::A(table)),
        ])
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
        // facts must not depend on what a caller's RUSTFLAGS or profile switch off
        args.push("-Coverflow-checks=on".into());
    }
    std::process::exit(match rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)) { Ok(_) => 0, Err(_) => 1 });
}
