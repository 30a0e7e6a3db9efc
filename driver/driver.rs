// MIR extractor: compiles the crate it is given exactly as rustc would, and dumps as JSON the
// monomorphised MIR of every function reachable from the crate's own functions, together with the
// evaluated constants, types and layouts.  Nothing of the analysed crate is executed.
#![feature(rustc_private)]
#![allow(unused_imports, unused_variables)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_ast;
extern crate rustc_span;
#[macro_use]
extern crate serde_json;

use rustc_middle::ty::{self, TyCtxt, TypingEnv};
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::{
    Allocation, ClosureKind, ConstantKind, GenericArgKind, GenericArgs, MirConst, RigidTy, Span, Ty,
    TyConst, TyConstKind, TyKind,
};
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use serde_json::Value;
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<Value>,
    ty_ids: HashMap<Ty, usize>,
    fns: Vec<Value>,
    fn_ids: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    allocs: HashMap<AllocId, usize>,
    alloc_vals: Vec<Value>,
    files: Vec<String>,
    file_ids: HashMap<String, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn span(&mut self, s: Span) -> Value {
        let f = s.get_filename();
        let id = match self.file_ids.get(&f) {
            Some(i) => *i,
            None => {
                let i = self.files.len();
                self.files.push(f.clone());
                self.file_ids.insert(f, i);
                i
            }
        };
        let l = s.get_lines();
        json!([id, l.start_line, l.end_line])
    }

    fn generic_args(&mut self, args: &GenericArgs) -> Value {
        let mut out = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => out.push(json!(["t", self.ty(*t)])),
                GenericArgKind::Const(c) => out.push(json!(["c", self.tyconst(c)])),
            }
        }
        Value::Array(out)
    }

    fn tyconst(&mut self, c: &TyConst) -> Value {
        match c.eval_target_usize() {
            Ok(v) => json!(v),
            Err(_) => match c.kind() {
                TyConstKind::Value(t, a) => {
                    let t = self.ty(*t);
                    let a = self.alloc(a);
                    json!({"ty": t, "alloc": a})
                }
                k => json!(format!("{:?}", k)),
            },
        }
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.push(Value::Null);
        self.ty_ids.insert(t, id);
        let kind = t.kind();
        let mut v = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k": "bool"}),
                RigidTy::Char => json!({"k": "char"}),
                RigidTy::Int(i) => json!({"k": "int", "signed": true, "bits": i.num_bytes() * 8}),
                RigidTy::Uint(i) => json!({"k": "int", "signed": false, "bits": i.num_bytes() * 8}),
                RigidTy::Float(_) => json!({"k": "float"}),
                RigidTy::Adt(def, args) => {
                    let mut variants = vec![];
                    for (i, vd) in def.variants().iter().enumerate() {
                        let mut fs = vec![];
                        let mut names = vec![];
                        for f in vd.fields() {
                            fs.push(self.ty(f.ty_with_args(args)));
                            names.push(f.name.to_string());
                        }
                        let discr = if def.kind() == rustc_public::ty::AdtKind::Enum {
                            let d = def.discriminant_for_variant(vd.idx());
                            json!(d.val.to_string())
                        } else {
                            Value::Null
                        };
                        variants.push(json!({"name": vd.name().to_string(), "fields": fs, "names": names, "discr": discr}));
                    }
                    let ga = self.generic_args(args);
                    json!({"k": "adt", "adt": format!("{:?}", def.kind()), "name": def.name().to_string(),
                           "krate": def.krate().name.to_string(), "box": def.is_box(),
                           "variants": variants, "args": ga})
                }
                RigidTy::Str => json!({"k": "str"}),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    json!({"k": "array", "elem": e, "len": n.eval_target_usize().ok()})
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(*e);
                    json!({"k": "slice", "elem": e})
                }
                RigidTy::RawPtr(p, m) => {
                    let p = self.ty(*p);
                    json!({"k": "ptr", "to": p, "mut": *m == Mutability::Mut})
                }
                RigidTy::Ref(_, p, m) => {
                    let p = self.ty(*p);
                    json!({"k": "ref", "to": p, "mut": *m == Mutability::Mut})
                }
                RigidTy::FnDef(def, args) => {
                    let inst = Instance::resolve(*def, args);
                    match inst {
                        Ok(i) => {
                            let f = self.func(i);
                            json!({"k": "fndef", "fn": f, "name": def.name().to_string()})
                        }
                        Err(_) => json!({"k": "fndef", "fn": null, "name": def.name().to_string()}),
                    }
                }
                RigidTy::FnPtr(_) => json!({"k": "fnptr"}),
                RigidTy::Closure(def, args) => {
                    let mut fns = vec![];
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(*def, args, k) {
                            fns.push(self.func(i));
                        }
                    }
                    let it = internal(self.tcx, t);
                    let mut ups = vec![];
                    if let ty::Closure(_, a) = it.kind() {
                        for u in a.as_closure().upvar_tys() {
                            ups.push(self.ty(stable(u)));
                        }
                    }
                    json!({"k": "closure", "name": def.name().to_string(), "fns": fns, "fields": ups})
                }
                RigidTy::Tuple(ts) => {
                    let ts: Vec<usize> = ts.iter().map(|x| self.ty(*x)).collect();
                    json!({"k": "tuple", "fields": ts})
                }
                RigidTy::Never => json!({"k": "never"}),
                RigidTy::Dynamic(p, _) => json!({"k": "dyn", "name": format!("{:?}", p)}),
                other => json!({"k": "other", "name": format!("{:?}", other)}),
            },
            other => json!({"k": "unresolved", "name": format!("{:?}", other)}),
        };
        v["str"] = json!(format!("{}", t));
        let concrete = !matches!(v["k"].as_str(), Some("unresolved"));
        if concrete {
            if let Ok(l) = t.layout() {
                let s = l.shape();
                if s.is_sized() {
                    v["size"] = json!(s.size.bytes());
                    match &s.fields {
                        FieldsShape::Arbitrary { offsets } => {
                            v["offsets"] = json!(offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>());
                        }
                        FieldsShape::Array { stride, count } => {
                            v["stride"] = json!(stride.bytes());
                        }
                        _ => {}
                    }
                    match &s.variants {
                        VariantsShape::Single { index } => {
                            v["single"] = json!(format!("{:?}", index));
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let enc = match tag_encoding {
                                TagEncoding::Direct => json!({"direct": true}),
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let it = rustc_public::ty::VariantIdx::clone(untagged_variant);
                                    json!({"direct": false, "untagged": format!("{:?}", untagged_variant),
                                           "start": format!("{:?}", niche_variants.start()), "end": format!("{:?}", niche_variants.end()),
                                           "niche_start": niche_start.to_string()})
                                }
                            };
                            let tag_size = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. }
                                | rustc_public::abi::Scalar::Union { value } => {
                                    format!("{:?}", value)
                                }
                            };
                            v["tag"] = json!({"enc": enc, "field": tag_field, "prim": tag_size,
                                "variants": variants.iter().map(|x| x.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()).collect::<Vec<_>>()});
                        }
                        _ => {}
                    }
                }
            }
        }
        self.tys[id] = v;
        id
    }

    fn alloc(&mut self, a: &Allocation) -> Value {
        let hex: String = a
            .bytes
            .iter()
            .map(|b| match b {
                Some(b) => format!("{:02x}", b),
                None => "??".to_string(),
            })
            .collect();
        let mut prov = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = self.alloc_id(p.0);
            prov.push(json!([*off, id]));
        }
        json!({"bytes": hex, "prov": prov})
    }

    fn alloc_id(&mut self, id: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&id) {
            return *i;
        }
        let n = self.alloc_vals.len();
        self.alloc_vals.push(Value::Null);
        self.allocs.insert(id, n);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                let a = self.alloc(&a);
                json!({"k": "mem", "alloc": a})
            }
            GlobalAlloc::Function(i) => {
                let f = self.func(i);
                json!({"k": "fn", "fn": f})
            }
            // a static that nothing can write to is read like a constant
            GlobalAlloc::Static(s)
                if {
                    let did = internal(self.tcx, s.def_id());
                    !self.tcx.is_foreign_item(did)
                        && !self.tcx.is_mutable_static(did)
                        && self.tcx.type_of(did).instantiate_identity().skip_norm_wip().is_freeze(self.tcx, TypingEnv::fully_monomorphized())
                        && s.eval_initializer().is_ok()
                } =>
            {
                let a = self.alloc(&s.eval_initializer().unwrap());
                json!({"k": "mem", "alloc": a})
            }
            GlobalAlloc::Static(s) => json!({"k": "static", "name": s.name().to_string(), "krate": s.krate().name.to_string()}),
            GlobalAlloc::VTable(t, _) => json!({"k": "vtable", "ty": format!("{}", t)}),
            GlobalAlloc::TypeId { ty } => json!({"k": "typeid"}),
        };
        self.alloc_vals[n] = v;
        n
    }

    fn func(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fn_ids.get(&i) {
            return *x;
        }
        let id = self.fns.len();
        self.fns.push(Value::Null);
        self.fn_ids.insert(i, id);
        self.queue.push_back((id, i));
        id
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = self.alloc(a);
                json!({"ty": t, "alloc": a})
            }
            ConstantKind::ZeroSized => json!({"ty": t, "zst": true}),
            ConstantKind::Ty(tc) => {
                let v = self.tyconst(tc);
                json!({"ty": t, "tyconst": v})
            }
            k => json!({"ty": t, "other": format!("{:?}", k)}),
        }
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["copy", self.place(p)]),
            Operand::Move(p) => json!(["move", self.place(p)]),
            Operand::Constant(c) => {
                let v = self.konst(&c.const_);
                json!(["const", v])
            }
            Operand::RuntimeChecks(r) => json!(["rtc", format!("{:?}", r)]),
        }
    }

    fn place(&mut self, p: &Place) -> Value {
        let mut proj = vec![];
        for e in &p.projection {
            proj.push(match e {
                ProjectionElem::Deref => json!(["*"]),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    json!(["f", i, t])
                }
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["ci", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(v) => {
                    json!(["d", internal(self.tcx, *v).as_usize()])
                }
                ProjectionElem::OpaqueCast(t) => json!(["oc"]),
            });
        }
        json!([p.local, proj])
    }

    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(k, p) => json!(["addr", format!("{:?}", k), self.place(p)]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                json!(["ref", m, self.place(p)])
            }
            Rvalue::Reborrow(_, m, p) => json!(["reborrow", *m == Mutability::Mut, self.place(p)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["copy", self.place(p)]]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
            Rvalue::Aggregate(k, ops) => {
                let k = match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        json!(["array", t])
                    }
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(def, v, args, _, fi) => {
                        let t = self.ty(def.ty_with_args(args));
                        json!(["adt", t, internal(self.tcx, *v).as_usize(), fi])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        json!(["closure", t])
                    }
                    AggregateKind::RawPtr(t, m) => {
                        let t = self.ty(*t);
                        json!(["rawptr", t])
                    }
                    k => json!(["other", format!("{:?}", k)]),
                };
                let ops: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                json!(["agg", k, ops])
            }
            Rvalue::BinaryOp(op, a, b) => json!(["bin", format!("{:?}", op), self.operand(a), self.operand(b)]),
            Rvalue::CheckedBinaryOp(op, a, b) => {
                json!(["cbin", format!("{:?}", op), self.operand(a), self.operand(b)])
            }
            Rvalue::UnaryOp(op, a) => json!(["un", format!("{:?}", op), self.operand(a)]),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                json!(["cast", format!("{:?}", k), self.operand(o), t])
            }
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => {
                let n = self.tyconst(n);
                json!(["repeat", self.operand(o), n])
            }
            Rvalue::ThreadLocalRef(c) => json!(["tls", c.name().to_string()]),
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(json!(["=", p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(json!(["sd", p, internal(self.tcx, *variant_index).as_usize(), sp]));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.operand(o);
                        st.push(json!(["assume", o, sp]));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, b, n) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        st.push(json!(["cno", a, b, n, sp]));
                    }
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    json!(["switch", d, br, targets.otherwise()])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).unwrap();
                    let ti = internal(self.tcx, t);
                    let nd = ti.needs_drop(self.tcx, TypingEnv::fully_monomorphized());
                    let p = self.place(place);
                    json!(["drop", p, target, nd])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<Value> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    json!(["call", f, a, d, target])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let (kind, ops): (String, Vec<&Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                        AssertMessage::Overflow(op, a, b) => (format!("Overflow({:?})", op), vec![a, b]),
                        AssertMessage::OverflowNeg(a) => ("OverflowNeg".into(), vec![a]),
                        AssertMessage::DivisionByZero(a) => ("DivisionByZero".into(), vec![a]),
                        AssertMessage::RemainderByZero(a) => ("RemainderByZero".into(), vec![a]),
                        m => (format!("{:?}", m).chars().take(40).collect(), vec![]),
                    };
                    let ops: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                    json!(["assert", c, expected, kind, ops, target])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            blocks.push(json!({"s": st, "t": t, "p": sp}));
        }
        let mut names = serde_json::Map::new();
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.insert(l.to_string(), json!(v.name.to_string()));
            }
        }
        json!({"argc": b.arg_locals().len(), "locals": locals, "blocks": blocks, "spread": b.spread_arg(), "names": names})
    }

    fn dump_fn(&mut self, id: usize, i: Instance) {
        let tcx = self.tcx;
        let name = i.name().to_string();
        let def_id = internal(tcx, i.def.def_id());
        let krate = tcx.crate_name(def_id.krate).to_string();
        let path = tcx.def_path_str(def_id);
        let args = self.generic_args(&i.args());
        let mut v = json!({
            "name": name, "path": path, "krate": krate, "local": def_id.is_local(),
            "kind": format!("{:?}", i.kind), "args": args,
        });
        if let Some(n) = i.intrinsic_name() {
            v["intrinsic"] = json!(n.to_string());
        }
        // Which trait method is it, if any?
        if i.kind != InstanceKind::Shim {
            if let Some(imp) = tcx.impl_of_assoc(def_id) {
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    v["trait"] = json!(tcx.def_path_str(tr.def_id));
                    v["impl_self"] = json!(format!("{}", tr.self_ty()));
                    let ta: Vec<String> = tr.args.iter().skip(1).map(|a| format!("{}", a)).collect();
                    v["trait_args"] = json!(ta);
                } else {
                    v["inherent"] = json!(format!("{}", tcx.type_of(imp).instantiate_identity().skip_norm_wip()));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(def_id) {
                v["trait_default"] = json!(tcx.def_path_str(tr));
            }
            v["method"] = json!(tcx.opt_item_name(def_id).map(|s| s.to_string()));
        }
        let is_fn_like = matches!(
            tcx.def_kind(def_id),
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure | rustc_hir::def::DefKind::Ctor(..)
        );
        if def_id.is_local() && is_fn_like {
            let ev = tcx.effective_visibilities(());
            let ld = def_id.expect_local();
            v["exported"] = json!(ev.is_exported(ld));
            v["vis_public"] = json!(tcx.visibility(def_id).is_public());
        }
        let skip = !def_id.is_local()
            && (krate.starts_with("rand")
                || path.starts_with("core::panicking")
                || path.starts_with("std::panicking")
                || path.starts_with("std::rt")
                || path.starts_with("core::fmt")
                || path.starts_with("std::fmt")
                || path.starts_with("std::io")
                || path.starts_with("alloc::fmt")
                || krate == "libc");
        if i.kind == InstanceKind::Shim || def_id.is_local() || !skip {
            if !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) && (i.kind != InstanceKind::Intrinsic) {
                if let Some(b) = i.body() {
                    let sp = self.span(b.span);
                    v["span"] = sp;
                    v["body"] = self.body(&b);
                }
            }
        }
        self.fns[id] = v;
    }
}

fn roots<'tcx>(cx: &mut Cx<'tcx>) -> Vec<Value> {
    let tcx = cx.tcx;
    let mut out = vec![];
    // candidate type arguments for generic functions: every non-generic local ADT, and a random
    // generator of the rand crate
    let mut cands: Vec<ty::Ty<'tcx>> = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        use rustc_hir::def::DefKind::*;
        match tcx.def_kind(id) {
            Struct | Enum => {
                let g = tcx.generics_of(id);
                if g.count() == 0 {
                    cands.push(tcx.type_of(id).instantiate_identity().skip_norm_wip());
                }
            }
            _ => {}
        }
    }
    let base = cands.clone();
    for id in tcx.hir_crate_items(()).definitions() {
        use rustc_hir::def::DefKind::*;
        if matches!(tcx.def_kind(id), Struct | Enum) {
            let did = id.to_def_id();
            let own = &tcx.generics_of(did).own_params;
            if own.len() == 1 && matches!(own[0].kind, ty::GenericParamDefKind::Type { .. }) {
                for &c in &base {
                    let args = ty::GenericArgs::for_item(tcx, did, |_, _| c.into());
                    if !tcx.instantiate_and_check_impossible_clauses((did, args)) {
                        cands.push(tcx.type_of(did).instantiate(tcx, args).skip_norm_wip());
                    }
                }
            }
        }
    }
    for &c in tcx.crates(()) {
        if tcx.crate_name(c).as_str() == "rand" {
            for k in rustc_public::external_crates() {
                if rustc_public::rustc_internal::crate_num(&k) == c {
                    for a in k.adts() {
                        let n = a.name().to_string();
                        if n.ends_with("::XorShiftRng") || n.ends_with("::StdRng") {
                            let t = internal(tcx, a.ty());
                            cands.push(t);
                        }
                    }
                }
            }
            // re-exported generators of the underlying rand implementation
            for child in tcx.module_children(c.as_def_id()) {
                let n = child.ident.name.as_str();
                if n == "XorShiftRng" || n == "StdRng" || n == "ThreadRng" {
                    if let Some(d) = child.res.opt_def_id() {
                        if matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Struct) {
                            cands.push(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                        }
                    }
                }
            }
        }
    }
    for id in tcx.hir_crate_items(()).definitions() {
        use rustc_hir::def::DefKind::*;
        let dk = tcx.def_kind(id);
        if !matches!(dk, Fn | AssocFn) {
            continue;
        }
        let did = id.to_def_id();
        if !tcx.is_mir_available(did) {
            continue; // required trait method
        }
        let g = tcx.generics_of(did);
        let mut has_const = false;
        let n_ty = {
            let mut n = 0;
            let mut cur = Some(g);
            while let Some(gg) = cur {
                for p in &gg.own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        n += 1;
                    }
                    has_const |= matches!(p.kind, ty::GenericParamDefKind::Const { .. });
                }
                cur = gg.parent.map(|p| tcx.generics_of(p));
            }
            n
        };
        let mut insts: Vec<(Value, ty::Instance<'tcx>)> = vec![];
        if n_ty == 0 {
            let args = ty::GenericArgs::for_item(tcx, did, |p, _| tcx.lifetimes.re_erased.into());
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), did, args) {
                insts.push((Value::Null, i));
            }
        } else if n_ty == 1 && !has_const {
            for &c in &cands {
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => c.into(),
                });
                if tcx.instantiate_and_check_impossible_clauses((did, args)) {
                    continue;
                }
                if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), did, args) {
                    if i.def_id() == did {
                        insts.push((json!(format!("{}", c)), i));
                    }
                }
            }
        }
        if insts.is_empty() {
            out.push(json!({"path": tcx.def_path_str(did), "generic": n_ty, "fn": null}));
        }
        for (c, i) in insts {
            let f = cx.func(stable(i));
            out.push(json!({"path": tcx.def_path_str(did), "generic": n_ty, "for": c, "fn": f}));
        }
    }
    out
}

struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(String, rustc_span::Span)>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(("unsafe block".into(), b.span));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

/// Every use of unsafety in the crate: blocks, functions, impls, foreign items.
fn unsafety<'tcx>(cx: &mut Cx<'tcx>) -> (Vec<Value>, usize) {
    let tcx = cx.tcx;
    let mut u = Unsafe { tcx, out: vec![] };
    let mut bodies = 0;
    for o in tcx.hir_body_owners() {
        bodies += 1;
        rustc_hir::intravisit::Visitor::visit_body(&mut u, tcx.hir_body_owned_by(o));
    }
    for id in tcx.hir_crate_items(()).definitions() {
        use rustc_hir::def::DefKind::*;
        let did = id.to_def_id();
        match tcx.def_kind(id) {
            Fn | AssocFn => {
                if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                    u.out.push(("unsafe fn".into(), tcx.def_span(did)));
                }
            }
            Impl { of_trait: true } => {
                if tcx.impl_trait_header(did).safety.is_unsafe() && !tcx.is_automatically_derived(did) {
                    u.out.push(("unsafe impl".into(), tcx.def_span(did)));
                }
            }
            ForeignMod => u.out.push(("extern block".into(), tcx.def_span(did))),
            GlobalAsm => u.out.push(("global asm".into(), tcx.def_span(did))),
            _ => {}
        }
    }
    let v = u.out.clone().into_iter().map(|(k, s)| json!({"kind": k, "span": cx.span(stable(s))})).collect();
    (v, bodies)
}

fn items<'tcx>(cx: &mut Cx<'tcx>) -> Value {
    let tcx = cx.tcx;
    let mut consts = vec![];
    let mut adts = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    let ev = tcx.effective_visibilities(());
    for id in tcx.hir_crate_items(()).definitions() {
        use rustc_hir::def::DefKind::*;
        let did = id.to_def_id();
        match tcx.def_kind(id) {
            Const { .. } | AssocConst { .. } => {
                if tcx.generics_of(did).count() == 0 {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let val = match tcx.const_eval_poly(did) {
                        Ok(cv) => {
                            let c = rustc_middle::mir::Const::Val(cv, t);
                            let sc: MirConst = stable(c);
                            cx.konst(&sc)
                        }
                        Err(_) => Value::Null,
                    };
                    let sp = cx.span(stable(tcx.def_span(did)));
                    let docs: Vec<String> =
                        tcx.hir_attrs(tcx.local_def_id_to_hir_id(id)).iter().filter_map(|a| rustc_ast::attr::AttributeExt::doc_str(a).map(|s| s.to_string())).collect();
                    consts.push(json!({"path": tcx.def_path_str(did), "value": val, "span": sp, "exported": ev.is_exported(id), "docs": docs}));
                }
            }
            Static { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sp = cx.span(stable(tcx.def_span(did)));
                let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                statics.push(json!({"path": tcx.def_path_str(did), "ty": format!("{}", t), "mut": tcx.is_mutable_static(did), "freeze": freeze, "span": sp}));
            }
            Struct | Enum | Union => {
                let def = tcx.adt_def(did);
                let mut fields = vec![];
                for v in def.variants() {
                    for f in &v.fields {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fields.push(json!({"name": f.name.to_string(), "ty": format!("{}", ft),
                            "public": f.vis.is_public(), "vis": format!("{:?}", f.vis),
                            "exported": f.did.as_local().map(|l| ev.is_exported(l))}));
                    }
                }
                let sp = cx.span(stable(tcx.def_span(did)));
                let gc = tcx.generics_of(did).count();
                let mut freeze = Value::Null;
                if gc == 0 {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    freeze = json!(t.is_freeze(tcx, TypingEnv::fully_monomorphized()));
                }
                adts.push(json!({"path": tcx.def_path_str(did), "fields": fields, "generics": gc, "freeze": freeze, "kind": format!("{:?}", tcx.def_kind(id)),
                    "exported": ev.is_exported(id), "span": sp}));
            }
            Impl { of_trait } => {
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let mut assoc = serde_json::Map::new();
                    for a in tcx.associated_items(did).in_definition_order() {
                        if matches!(a.kind, ty::AssocKind::Type { .. }) {
                            assoc.insert(a.name().to_string(), json!(format!("{}", tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip())));
                        }
                    }
                    let ta: Vec<String> = tr.args.iter().skip(1).map(|a| format!("{}", a)).collect();
                    let sp = cx.span(stable(tcx.def_span(did)));
                    impls.push(json!({"trait": tcx.def_path_str(tr.def_id), "self": format!("{}", tr.self_ty()), "args": ta, "assoc": assoc, "span": sp}));
                }
            }
            _ => {}
        }
    }
    let (us, bodies) = unsafety(cx);
    json!({"unsafe": us, "bodies": bodies, "consts": consts, "adts": adts, "statics": statics, "impls": impls})
}

fn dump(tcx: TyCtxt<'_>) {
    let out = std::env::var("SCV_OUT").expect("SCV_OUT");
    let mut cx = Cx {
        tcx,
        tys: vec![],
        ty_ids: HashMap::new(),
        fns: vec![],
        fn_ids: HashMap::new(),
        queue: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_vals: vec![],
        files: vec![],
        file_ids: HashMap::new(),
    };
    let r = roots(&mut cx);
    let it = items(&mut cx);
    while let Some((id, i)) = cx.queue.pop_front() {
        cx.dump_fn(id, i);
    }
    let dl = &cx.tcx.data_layout;
    let target = json!({"ptr": dl.pointer_size().bits(), "endian": dl.endian.as_str(),
        "name": cx.tcx.sess.opts.target_triple.tuple()});
    let v = json!({"target": target, "roots": r, "items": it, "types": cx.tys, "fns": cx.fns, "allocs": cx.alloc_vals, "files": cx.files});
    std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
}

fn main() {
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc cargo would have used.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let target = std::env::var("SCV_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Awarnings".into());
    }
    let r = rustc_public::run_with_tcx!(&args, |tcx| {
        if is_target {
            dump(tcx);
        }
        ControlFlow::<(), ()>::Continue(())
    });
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
