//! mirdump: used as RUSTC_WRAPPER for a `cargo +nightly check` of /repo.
//!   mirdump <rustc> <args...>
//! For every crate but the target it execs the real rustc (with two compatibility
//! adjustments that let the pinned dependency versions build on this nightly).
//! For the target crate (`phoenix`) it runs the compiler in-process and, after analysis,
//! writes the type-checked program (MIR of every local body, resolved callees, ADT layouts,
//! trait impl tables) as JSON to $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::unix::process::CommandExt;

const TARGET: &str = "phoenix";

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut rest: Vec<String> = args[1..].to_vec();
    let crate_name = rest
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| rest.get(i + 1).cloned())
        .unwrap_or_default();
    let is_target = crate_name == TARGET && std::env::var("MIRDUMP_OUT").is_ok();
    if !is_target {
        let mut cmd;
        if crate_name == "ahash" {
            // ahash 0.7.6's build script turns on library features that this nightly no longer has
            let mut out: Vec<String> = vec![];
            for a in rest.drain(..) {
                if a == "feature=\"stdsimd\"" || a == "feature=\"specialize\"" {
                    out.pop();
                    continue;
                }
                out.push(a);
            }
            rest = out;
        }
        cmd = std::process::Command::new(&rest[0]);
        cmd.args(&rest[1..]);
        if crate_name == "wasm_bindgen" {
            // rustc refuses wasm-bindgen < 0.2.88 by its version variables (wasm ABI only)
            cmd.env("CARGO_PKG_VERSION_MAJOR", "0")
                .env("CARGO_PKG_VERSION_MINOR", "2")
                .env("CARGO_PKG_VERSION_PATCH", "99");
        }
        let e = cmd.exec();
        eprintln!("exec failed: {e}");
        std::process::exit(101);
    }
    rest.push("-Zmir-opt-level=0".into());
    rest.push("-Zub-checks=no".into());
    rest.push("-Zalways-encode-mir".into());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&rest, &mut Cb));
    std::process::exit(if format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let out = std::env::var("MIRDUMP_OUT").unwrap();
        let j = with_no_trimmed_paths!(dump(tcx));
        std::fs::write(out, j.to_string()).unwrap();
        rustc_driver::Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
}

fn pstr<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    // unique, stable within a run: crate name + def path data
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let p = pstr(self.tcx, def.did());
        if self.adt_seen.insert(def.did()) {
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let d = if def.is_enum() {
                    J::S(format!("{}", def.discriminant_for_variant(self.tcx, vi).val))
                } else {
                    J::Null
                };
                let fields = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = self.ty(t);
                        let vis = format!("{:?}", f.vis);
                        J::A(vec![J::s(f.name.as_str()), J::n(ti), J::S(vis)])
                    })
                    .collect();
                vs.push(J::o(vec![("name", J::s(v.name.as_str())), ("discr", d), ("fields", J::A(fields))]));
            }
            let local = def.did().is_local();
            let repr = format!("{:?}", def.repr());
            self.adts.insert(
                p.clone(),
                J::o(vec![
                    ("kind", J::s(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" })),
                    ("path", J::S(self.tcx.def_path_str(def.did()))),
                    ("local", J::B(local)),
                    ("repr", J::S(repr)),
                    ("variants", J::A(vs)),
                ]),
            );
        }
        p
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let s = format!("{t}");
        let mut f: Vec<(&str, J)> = vec![("s", J::S(s))];
        if matches!(t.kind(), ty::Adt(..) | ty::Array(..) | ty::Tuple(..)) && !t.has_param() && !t.has_aliases() && !t.has_escaping_bound_vars() && !t.has_infer() {
            if let Ok(l) = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                if l.is_sized() {
                    f.push(("size", J::n(l.size.bytes() as usize)));
                    if let ty::Adt(d, _) = t.kind() {
                        if d.is_struct() {
                            let offs = (0..l.fields.count()).map(|i| J::n(l.fields.offset(i).bytes() as usize)).collect();
                            f.push(("offs", J::A(offs)));
                        }
                    }
                }
            }
        }
        match t.kind() {
            ty::Bool => f.push(("k", J::s("bool"))),
            ty::Char => f.push(("k", J::s("char"))),
            ty::Int(it) => {
                f.push(("k", J::s("int")));
                f.push(("bits", J::n(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(it) => {
                f.push(("k", J::s("uint")));
                f.push(("bits", J::n(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Str => f.push(("k", J::s("str"))),
            ty::Never => f.push(("k", J::s("never"))),
            ty::Adt(d, args) => {
                f.push(("k", J::s("adt")));
                let p = self.adt(*d);
                f.push(("def", J::S(p)));
                let a = args.types().map(|x| J::n(self.ty(x))).collect();
                f.push(("args", J::A(a)));
                let c = args.consts().map(|x| J::S(format!("{x}"))).collect();
                f.push(("cargs", J::A(c)));
            }
            ty::Ref(_, x, m) => {
                f.push(("k", J::s("ref")));
                f.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x);
                f.push(("t", J::n(x)));
            }
            ty::RawPtr(x, m) => {
                f.push(("k", J::s("ptr")));
                f.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x);
                f.push(("t", J::n(x)));
            }
            ty::Array(x, n) => {
                f.push(("k", J::s("array")));
                let x = self.ty(*x);
                f.push(("t", J::n(x)));
                f.push(("n", J::S(format!("{n}"))));
            }
            ty::Slice(x) => {
                f.push(("k", J::s("slice")));
                let x = self.ty(*x);
                f.push(("t", J::n(x)));
            }
            ty::Tuple(ts) => {
                f.push(("k", J::s("tuple")));
                let a = ts.iter().map(|x| J::n(self.ty(x))).collect();
                f.push(("args", J::A(a)));
            }
            ty::Closure(d, args) => {
                f.push(("k", J::s("closure")));
                f.push(("def", J::S(pstr(self.tcx, *d))));
                let ups = args.as_closure().upvar_tys().iter().map(|x| J::n(self.ty(x))).collect();
                f.push(("upvars", J::A(ups)));
            }
            ty::FnDef(d, _) => {
                f.push(("k", J::s("fndef")));
                f.push(("def", J::S(pstr(self.tcx, *d))));
            }
            ty::FnPtr(..) => f.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => f.push(("k", J::s("dyn"))),
            ty::Param(_) => f.push(("k", J::s("param"))),
            ty::Alias(..) => f.push(("k", J::s("alias"))),
            _ => f.push(("k", J::s("other"))),
        }
        self.types[i] = J::o(f);
        i
    }

    fn fninfo(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut f: Vec<(&str, J)> = vec![("def", J::S(pstr(tcx, d))), ("path", J::S(tcx.def_path_str(d)))];
        f.push(("pretty", J::S(tcx.def_path_str_with_args(d, args))));
        let targs: Vec<J> = args.types().map(|x| J::n(self.ty(x))).collect();
        f.push(("targs", J::A(targs)));
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        f.push(("name", J::S(name)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait", J::S(tcx.def_path_str(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            f.push(("impl_self", J::n(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                f.push(("impl_trait", J::S(tcx.def_path_str(tr.instantiate_identity().skip_norm_wip().def_id))));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args_e = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, env, d, args_e)
            }))
            .unwrap_or(Ok(None))
            {
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(..) => "intrinsic",
                    _ => "shim",
                };
                f.push(("rk", J::s(k)));
                if inst.def_id() != d {
                    let ra: Vec<J> = inst.args.types().map(|x| J::n(self.ty(x))).collect();
                    f.push(("rtargs", J::A(ra)));
                }
                f.push(("rdef", J::S(pstr(tcx, inst.def_id()))));
                f.push(("rpath", J::S(tcx.def_path_str(inst.def_id()))));
                if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    f.push(("rself", J::n(st)));
                }
            }
        }
        J::o(f)
    }

    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = cv.try_to_scalar_int() {
                    let v = if let ty::Int(_) = t.kind() {
                        format!("{}", s.to_int(s.size()))
                    } else {
                        format!("{}", s.to_uint(s.size()))
                    };
                    return J::o(vec![("k", J::s("int")), ("v", J::S(v)), ("t", J::n(self.ty(t)))]);
                }
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::o(vec![("k", J::s("str")), ("v", J::S(String::from_utf8_lossy(b).into_owned()))]);
                    }
                }
                ty::Slice(x) if *x.kind() == ty::Uint(ty::UintTy::U8) => {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::o(vec![("k", J::s("bytes")), ("v", J::A(b.iter().map(|x| J::n(*x as usize)).collect()))]);
                    }
                }
                ty::Array(x, n) if *x.kind() == ty::Uint(ty::UintTy::U8) => {
                    // pointer to a byte array: read through the allocation
                    if let (Some(len), ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) =
                        (n.try_to_target_usize(tcx), cv)
                    {
                        let (prov, off) = p.into_raw_parts();
                        if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                            let o = off.bytes() as usize;
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len as usize);
                            return J::o(vec![("k", J::s("bytes")), ("v", J::A(b.iter().map(|x| J::n(*x as usize)).collect()))]);
                        }
                    }
                }
                _ => {}
            },
            ty::FnDef(..) => {}
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if depth < 6 {
                    let adt_ok = match t.kind() {
                        ty::Adt(d, _) => !d.is_union(),
                        _ => true,
                    };
                    let has_param = { use rustc_middle::ty::TypeVisitableExt; t.has_non_region_param() };
                    if adt_ok && !has_param {
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                            let mut fs = vec![];
                            for (v, ft) in d.fields.iter() {
                                fs.push(self.cval(*v, *ft, depth + 1));
                            }
                            let vi = d.variant.map(|v| J::n(v.as_usize())).unwrap_or(J::Null);
                            return J::o(vec![("k", J::s("agg")), ("t", J::n(self.ty(t))), ("variant", vi), ("fields", J::A(fs))]);
                        }
                    }
                }
            }
            _ => {}
        }
        let pointee = match t.kind() {
            ty::Ref(_, x, _) => Some(*x),
            ty::RawPtr(x, _) => Some(*x),
            _ => None,
        };
        if let (Some(x), ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) = (pointee, cv) {
            let (prov, off) = p.into_raw_parts();
            let ok = depth < 6 && !x.is_slice() && !x.is_str() && !matches!(x.kind(), ty::Dynamic(..) | ty::FnPtr(..));
            match tcx.global_alloc(prov.alloc_id()) {
                mir::interpret::GlobalAlloc::Static(d) => {
                    let mut f = vec![("k", J::s("static")), ("path", J::S(tcx.def_path_str(d))), ("t", J::n(self.ty(t)))];
                    if d.is_local() && ok {
                        if let Ok(a) = tcx.eval_static_initializer(d) {
                            let id = tcx.reserve_and_set_memory_alloc(a);
                            let v = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, x, depth + 1);
                            f.push(("v", v));
                        }
                    }
                    return J::o(f);
                }
                mir::interpret::GlobalAlloc::Memory(_) if ok => {
                    let v = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, x, depth + 1);
                    return J::o(vec![("k", J::s("refval")), ("v", v), ("t", J::n(self.ty(t)))]);
                }
                _ => {}
            }
        }
        J::o(vec![("k", J::s("opaque")), ("s", J::S(format!("{}", mir::Const::Val(cv, t)))), ("t", J::n(self.ty(t)))])
    }

    fn konst(&mut self, c: mir::Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return J::o(vec![("k", J::s("fn")), ("fn", self.fninfo(*d, args.skip_binder(), env))]);
        }
        let mut item = J::Null;
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return J::o(vec![("k", J::s("promoted")), ("of", J::S(pstr(tcx, u.def))), ("i", J::n(p.as_usize())), ("t", J::n(self.ty(t)))]);
            }
            item = J::S(pstr(tcx, u.def));
        }
        if let Ok(cv) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            let mut j = self.cval(cv, t, 0);
            if let J::O(ref mut v) = j {
                v.push(("item".into(), item));
            }
            return j;
        }
        let mut f = vec![("k", J::s("uneval")), ("s", J::S(format!("{c}"))), ("t", J::n(self.ty(t))), ("item", item)];
        if let mir::Const::Unevaluated(u, _) = c {
            let targs: Vec<J> = u.args.types().map(|x| J::n(self.ty(x))).collect();
            f.push(("targs", J::A(targs)));
        }
        J::o(f)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::n(i.as_usize()), J::n(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![J::s("c"), J::n(offset as usize), J::n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::n(from as usize), J::n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("d"), J::n(v.as_usize())]),
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) | Operand::Move(p) => J::A(vec![J::s("p"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(c.const_, env)]),
            _ => J::A(vec![J::s("rc")]),
        }
    }

    fn span(&self, s: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, lo.line))
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => J::A(vec![J::s("rep"), self.operand(o, env), J::S(format!("{n}"))]),
            Rvalue::Ref(_, bk, p) => {
                J::A(vec![J::s("ref"), self.place(p), J::B(matches!(bk, BorrowKind::Mut { .. }))])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(p), J::B(true)]),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                let from = J::Null;
                let _ = from;
                J::A(vec![J::s("cast"), J::S(format!("{k:?}")), self.operand(o, env), J::n(t)])
            }
            Rvalue::BinaryOp(op, b) => {
                J::A(vec![J::s("bin"), J::S(format!("{op:?}")), self.operand(&b.0, env), self.operand(&b.1, env)])
            }
            Rvalue::UnaryOp(op, o) => J::A(vec![J::s("un"), J::S(format!("{op:?}")), self.operand(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, fs) => {
                let a: Vec<J> = fs.iter().map(|o| self.operand(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let p = self.adt(def);
                        let t = Ty::new_adt(self.tcx, def, args);
                        let t = self.ty(t);
                        J::A(vec![J::s("adt"), J::S(p), J::n(v.as_usize()), J::n(t)])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::S(pstr(self.tcx, *d))]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(a)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("p"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![J::s("ref"), self.place(p), J::B(m.is_mut())])
            }
            other => J::A(vec![J::s("other"), J::S(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let locals: Vec<J> = b.local_decls.iter().map(|l| J::n(self.ty(l.ty))).collect();
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![J::s(v.name.as_str()), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env);
                        st.push(J::A(vec![J::s("="), p, r, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![J::s("sd"), self.place(place), J::n(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![J::s("intr"), J::S(format!("{i:?}"))]));
                    }
                    StatementKind::StorageDead(_) | StatementKind::StorageLive(_) => {}
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, self.tcx);
                    let ty = self.ty(ty);
                    let o = self.operand(discr, env);
                    let v: Vec<J> =
                        targets.iter().map(|(v, t)| J::A(vec![J::S(v.to_string()), J::n(t.as_usize())])).collect();
                    J::A(vec![J::s("switch"), o, J::A(v), J::n(targets.otherwise().as_usize()), J::n(ty), sp])
                }
                TerminatorKind::Return => J::A(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![J::s("drop"), self.place(place), J::n(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&b.local_decls, self.tcx);
                            J::n(self.ty(t))
                        })
                        .collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    let tg = target.map(|t| J::n(t.as_usize())).unwrap_or(J::Null);
                    let fs = self.span(*fn_span);
                    J::A(vec![J::s("call"), f, J::A(a), d, tg, fs, J::A(at), J::n(dt)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let m = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::BoundsCheck { .. } => "bounds".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    J::A(vec![J::s("assert"), c, J::B(*expected), J::S(m), J::n(target.as_usize()), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![J::s("goto"), J::n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![J::s("goto"), J::n(real_target.as_usize())])
                }
                _ => J::A(vec![J::s("other")]),
            };
            blocks.push(J::o(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let spread = b.spread_arg.map(|l| J::n(l.as_usize())).unwrap_or(J::Null);
        J::o(vec![
            ("argc", J::n(b.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("spread", spread),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), adt_seen: HashSet::new() };
    let mut bodies: Vec<(String, J)> = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let is_const = matches!(
            kind,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
        );
        if !is_fn && !is_const {
            continue;
        }
        if matches!(kind, DefKind::AnonConst) {
            continue;
        }
        let mut f: Vec<(&str, J)> = vec![];
        f.push(("kind", J::S(format!("{kind:?}"))));
        f.push(("path", J::S(tcx.def_path_str(d))));
        f.push(("span", cx.span(tcx.def_span(d))));
        f.push(("from_exp", J::B(tcx.def_span(d).from_expansion())));
        f.push(("vis", J::S(if kind == DefKind::Closure { "closure".into() } else { format!("{:?}", tcx.visibility(d)) })));
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        f.push(("name", J::S(name)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait_default", J::S(tcx.def_path_str(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            f.push(("impl_self", J::n(sti)));
            if let ty::Adt(ad, _) = st.kind() {
                f.push(("impl_adt", J::S(pstr(tcx, ad.did()))));
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                f.push(("impl_trait", J::S(tcx.def_path_str(tr.def_id))));
                f.push(("impl_trait_full", J::S(format!("{tr}"))));
                let ta: Vec<J> = tr.args.types().map(|x| J::n(cx.ty(x))).collect();
                f.push(("impl_trait_args", J::A(ta)));
            }
        }
        if is_fn && kind != DefKind::Closure {
            let ga = ty::GenericArgs::identity_for_item(tcx, d);
            let gs: Vec<J> = ga.types().map(|x| J::S(format!("{x}"))).collect();
            f.push(("generics", J::A(gs)));
        }
        if is_fn {
            let body = tcx.optimized_mir(d);
            f.push(("body", cx.body(body, env)));
            let pr: Vec<J> = tcx.promoted_mir(d).iter().map(|b| cx.body(b, env)).collect();
            f.push(("promoted", J::A(pr)));
        } else {
            let body = tcx.mir_for_ctfe(d);
            f.push(("body", cx.body(body, env)));
            let pr: Vec<J> = tcx.promoted_mir(d).iter().map(|b| cx.body(b, env)).collect();
            f.push(("promoted", J::A(pr)));
        }
        bodies.push((pstr(tcx, d), J::o(f)));
    }
    // library functions the target calls whose code is at hand: those over options, results, comparisons and numbers
    let mut ext: Vec<(String, J)> = vec![];
    let mut seen: HashSet<DefId> = HashSet::new();
    let mut work: Vec<DefId> = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            library_callees(tcx, tcx.optimized_mir(d), TypingEnv::post_analysis(tcx, d), &mut work);
        }
    }
    while let Some(d) = work.pop() {
        if !seen.insert(d) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let body = tcx.optimized_mir(d);
        let mut f: Vec<(&str, J)> = vec![];
        let kind = tcx.def_kind(d);
        f.push(("kind", J::S(format!("{kind:?}"))));
        f.push(("path", J::S(tcx.def_path_str(d))));
        f.push(("span", cx.span(tcx.def_span(d))));
        f.push(("from_exp", J::B(false)));
        f.push(("vis", J::S("library".into())));
        f.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        if kind != DefKind::Closure {
            let ga = ty::GenericArgs::identity_for_item(tcx, d);
            let gs: Vec<J> = ga.types().map(|x| J::S(format!("{x}"))).collect();
            f.push(("generics", J::A(gs)));
        }
        f.push(("body", cx.body(body, env)));
        let pr: Vec<J> = tcx.promoted_mir(d).iter().map(|b| cx.body(b, env)).collect();
        f.push(("promoted", J::A(pr)));
        ext.push((pstr(tcx, d), J::o(f)));
        library_callees(tcx, body, env, &mut work);
    }
    // all local ADTs
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            cx.adt(tcx.adt_def(d));
        }
    }
    // trait impls in this crate
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            let mut f: Vec<(&str, J)> = vec![];
            f.push(("trait", J::S(tcx.def_path_str(tr.def_id))));
            let ta: Vec<J> = tr.args.types().map(|x| J::n(cx.ty(x))).collect();
            f.push(("args", J::A(ta)));
            f.push(("span", cx.span(tcx.def_span(d))));
            let mut assoc = vec![];
            let mut items = vec![];
            for it in tcx.associated_items(d).in_definition_order() {
                if it.is_type() {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    assoc.push(J::A(vec![J::s(it.name().as_str()), J::n(cx.ty(t))]));
                } else {
                    items.push(J::A(vec![J::s(it.name().as_str()), J::S(pstr(tcx, it.def_id))]));
                }
            }
            f.push(("assoc", J::A(assoc)));
            f.push(("items", J::A(items)));
            impls.push(J::o(f));
        }
    }
    // inherent/trait fn signatures
    let types = std::mem::take(&mut cx.types);
    let adts = std::mem::take(&mut cx.adts);
    J::o(vec![
        ("types", J::A(types)),
        ("adts", J::O(adts.into_iter().collect())),
        ("impls", J::A(impls)),
        ("bodies", J::O(bodies)),
        ("library", J::O(ext)),
    ])
}

const LIBRARY: &[&str] = &["core::option::", "core::result::", "core::bool::", "core::cmp::", "core::num::", "core::ops::control_flow::", "core::tuple::"];

fn library_callees<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, out: &mut Vec<DefId>) {
    let mut add = |d: DefId| {
        if !d.is_local() && tcx.is_mir_available(d) && LIBRARY.iter().any(|p| pstr(tcx, d).starts_with(p)) {
            out.push(d);
        }
    };
    for l in body.local_decls.iter() {
        if let ty::Closure(d, _) = l.ty.kind() {
            add(*d);
        }
    }
    for b in body.basic_blocks.iter() {
        if let TerminatorKind::Call { func, .. } = &b.terminator().kind {
            if let ty::FnDef(d, args) = func.ty(&body.local_decls, tcx).kind() {
                let args = tcx.erase_and_anonymize_regions(args.skip_binder());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, *d, args)));
                if let Ok(Ok(Some(inst))) = r {
                    if let ty::InstanceKind::Item(d) = inst.def {
                        add(d);
                    }
                }
            }
        }
    }
}
