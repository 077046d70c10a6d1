// MIR fact extractor: a rustc driver that type-checks the crate exactly as the
// compiler does and dumps its MIR (resolved callees, named fields, evaluated
// constants) as JSON.  Nothing of the analysed crate is ever executed.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_ast::attr::AttributeExt as _;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    let mut o = String::from("{");
    for (i, (k, x)) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&js(k));
        o.push(':');
        o.push_str(x);
    }
    o.push('}');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn loc(&self, sp: rustc_span::Span) -> (String, usize) {
        // the outermost expansion site: the line a reader looks at
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_default(),
            o => format!("{:?}", o),
        };
        (f, lo.line)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => {
                    format!("[\"*\",{}]", js(&self.tys(pty.ty)))
                }
                ProjectionElem::Field(f, fty) => {
                    let (owner, name) = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pty.variant_index {
                                Some(v) => adt.variant(v),
                                None => {
                                    if adt.is_enum() {
                                        adt.variant(rustc_abi::VariantIdx::from_u32(0))
                                    } else {
                                        adt.non_enum_variant()
                                    }
                                }
                            };
                            (self.path(adt.did()), v.fields[f].name.to_string())
                        }
                        ty::Closure(d, _) => {
                            (format!("closure:{}", self.path(*d)), f.index().to_string())
                        }
                        ty::Tuple(_) => ("tuple".to_string(), f.index().to_string()),
                        _ => ("?".to_string(), f.index().to_string()),
                    };
                    format!(
                        "[\"f\",{},{},{},{}]",
                        js(&name),
                        js(&owner),
                        f.index(),
                        js(&self.tys(fty))
                    )
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    let owner = match pty.ty.kind() {
                        ty::Adt(adt, _) => self.path(adt.did()),
                        _ => "?".to_string(),
                    };
                    format!("[\"d\",{},{},{}]", js(&name), js(&owner), v.index())
                }
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.index(), arr(out))
    }

    fn fnref(&self, env: ty::TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut v = vec![
            ("fn", js(&self.path(d))),
            ("crate", js(tcx.crate_name(d.krate).as_str())),
            (
                "args",
                arr(args.iter().map(|a| js(&with_no_trimmed_paths!(a.to_string()))).collect()),
            ),
        ];
        if let Some(t) = tcx.trait_of_assoc(d) {
            v.push(("trait", js(&self.path(t))));
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(tcx, env, d, args)
        }));
        if let Ok(Ok(Some(inst))) = res {
            let rd = inst.def_id();
            v.push(("res", js(&self.path(rd))));
            v.push(("rcrate", js(tcx.crate_name(rd.krate).as_str())));
            v.push(("local", rd.is_local().to_string()));
            if let ty::InstanceKind::Virtual(..) = inst.def {
                v.push(("virtual", "true".into()));
            }
            if tcx.is_closure_like(rd) {
                v.push(("closure", "true".into()));
            }
            v.push((
                "rargs",
                arr(inst.args.iter().map(|a| js(&with_no_trimmed_paths!(a.to_string()))).collect()),
            ));
        }
        v
    }

    fn constant(&self, env: ty::TypingEnv<'tcx>, owner: &str, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut v: Vec<(&str, String)> = vec![("k", "\"c\"".into()), ("ty", js(&self.tys(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                v.extend(self.fnref(env, *d, args));
                return obj(v);
            }
            ty::Closure(d, _) => {
                v.push(("closuredef", js(&self.path(*d))));
            }
            _ => {}
        }
        let mut skip_eval = false;
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                v.push(("promoted", js(&format!("{}::promoted[{}]", self.path(uv.def), p.index()))));
                skip_eval = true;
            } else {
                v.push(("item", js(&self.path(uv.def))));
            }
        }
        if !skip_eval && !c.const_.has_param() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                c.const_.eval(tcx, env, c.span)
            }));
            if let Ok(Ok(val)) = r {
                match val {
                    ConstValue::Scalar(s) => match s {
                        rustc_middle::mir::interpret::Scalar::Int(i) => {
                            let size = i.size();
                            let bits = i.to_bits(size);
                            let x: String = match t.kind() {
                                ty::Int(_) => {
                                    let sh = 128 - size.bits();
                                    let n = ((bits << sh) as i128) >> sh;
                                    n.to_string()
                                }
                                _ => bits.to_string(),
                            };
                            // fieldless enum constants: name the variant
                            if let ty::Adt(adt, _) = t.kind() {
                                if adt.is_enum() {
                                    for (vi, d) in adt.discriminants(tcx) {
                                        let m = if size.bits() >= 128 { u128::MAX } else { (1u128 << size.bits()) - 1 };
                                        if d.val & m == bits {
                                            v.push(("variant", js(adt.variant(vi).name.as_str())));
                                            v.push(("adt", js(&self.path(adt.did()))));
                                        }
                                    }
                                }
                            }
                            v.push(("int", x));
                        }
                        rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                            let (prov, off) = p.into_raw_parts();
                            if let Some(ga) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                match ga {
                                    rustc_middle::mir::interpret::GlobalAlloc::Static(d) => {
                                        v.push(("static", js(&self.path(d))));
                                    }
                                    rustc_middle::mir::interpret::GlobalAlloc::Function { instance } => {
                                        v.push(("fnptr", js(&self.path(instance.def_id()))));
                                    }
                                    rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => {
                                        if let ty::Ref(_, inner, _) = t.kind() {
                                            let want = match inner.kind() {
                                                ty::Array(e, _) => *e == tcx.types.u8,
                                                _ => false,
                                            };
                                            if want {
                                                let a = m.inner();
                                                let o = off.bytes() as usize;
                                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..a.len());
                                                if b.len() <= 512 {
                                                v.push(("bytes", arr(b.iter().map(|x| x.to_string()).collect())));
                                                }
                                            }
                                        }
                                    }
                                    _ => {}
                                }
                            }
                        }
                    },
                    ConstValue::ZeroSized => {
                        v.push(("zst", "true".into()));
                        if let ty::Adt(adt, _) = t.kind() {
                            if adt.is_enum() && adt.variants().len() == 1 {
                                v.push(("adt", js(&self.path(adt.did()))));
                            }
                        }
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(m)) =
                            tcx.try_get_global_alloc(alloc_id)
                        {
                            let a = m.inner();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.len()));
                            if b.len() <= 512 {
                                v.push(("bytes", arr(b.iter().map(|x| x.to_string()).collect())));
                            }
                            v.push(("slen", meta.to_string()));
                        }
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        v.push(("indirect", "true".into()));
                        if let (ty::Array(e, _), Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(m))) =
                            (t.kind(), tcx.try_get_global_alloc(alloc_id))
                        {
                            let a = m.inner();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..a.len());
                            if *e == tcx.types.u8 && b.len() <= 4096 {
                                v.push(("array", arr(b.iter().map(|x| x.to_string()).collect())));
                            }
                        }
                    }
                }
            }
        }
        obj(v)
    }

    fn operand(&self, env: ty::TypingEnv<'tcx>, owner: &str, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"pl\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"pl\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, owner, c),
            _ => "{\"k\":\"rt\"}".into(),
        }
    }

    fn rvalue(&self, env: ty::TypingEnv<'tcx>, owner: &str, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(env, owner, body, o);
        match r {
            Rvalue::Use(o, ..) => obj(vec![("r", "\"use\"".into()), ("o", op(o))]),
            Rvalue::Repeat(o, n) => obj(vec![("r", "\"repeat\"".into()), ("o", op(o)), ("n", js(&format!("{}", n)))]),
            Rvalue::Ref(_, bk, p) => obj(vec![
                ("r", "\"ref\"".into()),
                ("m", matches!(bk, BorrowKind::Mut { .. }).to_string()),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::RawPtr(k, p) => obj(vec![
                ("r", "\"addr\"".into()),
                ("m", js(&format!("{:?}", k))),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::Cast(k, o, t) => obj(vec![
                ("r", "\"cast\"".into()),
                ("ck", js(&format!("{:?}", k))),
                ("o", op(o)),
                ("ty", js(&self.tys(*t))),
            ]),
            Rvalue::BinaryOp(b, x) => obj(vec![
                ("r", "\"bin\"".into()),
                ("op", js(&format!("{:?}", b))),
                ("a", op(&x.0)),
                ("b", op(&x.1)),
            ]),
            Rvalue::UnaryOp(u, o) => obj(vec![
                ("r", "\"un\"".into()),
                ("op", js(&format!("{:?}", u))),
                ("o", op(o)),
            ]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, self.tcx).ty;
                let adt = match pt.kind() {
                    ty::Adt(a, _) => self.path(a.did()),
                    _ => "?".into(),
                };
                obj(vec![("r", "\"discr\"".into()), ("pl", self.place(body, p)), ("adt", js(&adt))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("r", "\"agg\"".to_string())];
                match &**k {
                    AggregateKind::Array(_) => v.push(("ak", "\"array\"".into())),
                    AggregateKind::Tuple => v.push(("ak", "\"tuple\"".into())),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        v.push(("ak", "\"adt\"".into()));
                        v.push(("adt", js(&self.path(*d))));
                        v.push(("variant", js(adt.variant(*vi).name.as_str())));
                        v.push(("enum", adt.is_enum().to_string()));
                        v.push((
                            "fields",
                            arr(adt.variant(*vi).fields.iter().map(|f| js(f.name.as_str())).collect()),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("ak", "\"closure\"".into()));
                        v.push(("closure", js(&self.path(*d))));
                    }
                    AggregateKind::RawPtr(..) => v.push(("ak", "\"rawptr\"".into())),
                    _ => v.push(("ak", "\"other\"".into())),
                }
                v.push(("ops", arr(ops.iter().map(|o| op(o)).collect())));
                obj(v)
            }
            Rvalue::CopyForDeref(p) => obj(vec![
                ("r", "\"use\"".into()),
                ("o", format!("{{\"k\":\"cp\",\"pl\":{}}}", self.place(body, p))),
            ]),
            other => obj(vec![("r", "\"other\"".into()), ("dbg", js(&format!("{:?}", other)))]),
        }
    }

    fn body(&self, id: &str, kind: &str, def: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, def);
        let mut v: Vec<(&str, String)> = vec![("id", js(id)), ("kind", js(kind))];
        let (f, l) = self.loc(body.span);
        v.push(("file", js(&f)));
        v.push(("line", l.to_string()));
        v.push(("argc", body.arg_count.to_string()));
        if kind == "fn" {
            let sig = tcx.fn_sig(def).skip_binder();
            v.push(("abi", js(&format!("{:?}", sig.abi()))));
            v.push(("pub", tcx.visibility(def).is_public().to_string()));
            v.push(("unsafe", (!sig.safety().is_safe()).to_string()));
            let mut doc = String::new();
            #[allow(deprecated)]
            for a in tcx.get_all_attrs(def) {
                if let Some(s) = a.doc_str() {
                    doc.push_str(s.as_str());
                    doc.push('\n');
                }
            }
            v.push(("doc", js(&doc)));
            v.push(("name", js(tcx.item_name(def).as_str())));
            if let Some(p) = tcx.opt_parent(def) {
                if let DefKind::Impl { .. } = tcx.def_kind(p) {
                    v.push(("self_ty", js(&self.tys(tcx.type_of(p).instantiate_identity().skip_norm_wip()))));
                    v.push(("impl_of", js(&self.path(p))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        v.push(("impl_trait", js(&self.path(tr.skip_binder().def_id))));
                    }
                }
            }
        }
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for d in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = d.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(d.name.to_string());
                }
            }
        }
        v.push((
            "locals",
            arr(body
                .local_decls
                .iter_enumerated()
                .map(|(i, d)| {
                    let mut x = vec![("ty", js(&self.tys(d.ty)))];
                    if let Some(n) = &names[i.index()] {
                        x.push(("n", js(n)));
                    }
                    obj(x)
                })
                .collect()),
        ));
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (_, ln) = self.loc(s.source_info.span);
                        st.push(obj(vec![
                            ("d", self.place(body, &x.0)),
                            ("v", self.rvalue(env, id, body, &x.1)),
                            ("ln", ln.to_string()),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(obj(vec![
                            ("setd", self.place(body, place)),
                            ("vi", variant_index.index().to_string()),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let (tf, ln) = self.loc(t.source_info.span);
            let mut tv: Vec<(&str, String)> = vec![("ln", ln.to_string())];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    tv.push(("t", "\"goto\"".into()));
                    tv.push(("to", target.index().to_string()));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    tv.push(("t", "\"switch\"".into()));
                    tv.push(("o", self.operand(env, id, body, discr)));
                    tv.push(("oty", js(&self.tys(discr.ty(&body.local_decls, tcx)))));
                    tv.push((
                        "cases",
                        arr(targets.iter().map(|(a, b)| format!("[{},{}]", a, b.index())).collect()),
                    ));
                    tv.push(("else", targets.otherwise().index().to_string()));
                }
                TerminatorKind::Return => tv.push(("t", "\"return\"".into())),
                TerminatorKind::Unreachable => tv.push(("t", "\"unreachable\"".into())),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    tv.push(("t", "\"resume\"".into()))
                }
                TerminatorKind::Drop { place, target, .. } => {
                    tv.push(("t", "\"drop\"".into()));
                    tv.push(("pl", self.place(body, place)));
                    tv.push(("ty", js(&self.tys(place.ty(&body.local_decls, tcx).ty))));
                    tv.push(("to", target.index().to_string()));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    tv.push(("t", "\"call\"".into()));
                    tv.push(("f", self.operand(env, id, body, func)));
                    tv.push((
                        "a",
                        arr(args.iter().map(|o| self.operand(env, id, body, &o.node)).collect()),
                    ));
                    tv.push((
                        "aty",
                        arr(args
                            .iter()
                            .map(|o| js(&self.tys(o.node.ty(&body.local_decls, tcx))))
                            .collect()),
                    ));
                    tv.push(("d", self.place(body, destination)));
                    match target {
                        Some(t) => tv.push(("to", t.index().to_string())),
                        None => tv.push(("to", "null".into())),
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    tv.push(("t", "\"assert\"".into()));
                    tv.push(("o", self.operand(env, id, body, cond)));
                    tv.push(("exp", expected.to_string()));
                    let (mk, mo): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(env, id, body, len), self.operand(env, id, body, index)],
                        ),
                        AssertKind::Overflow(b, x, y) => (
                            format!("overflow:{:?}", b),
                            vec![self.operand(env, id, body, x), self.operand(env, id, body, y)],
                        ),
                        AssertKind::OverflowNeg(x) => ("overflowneg".into(), vec![self.operand(env, id, body, x)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(env, id, body, x)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(env, id, body, x)]),
                        o => (format!("other:{:?}", o).split('(').next().unwrap().into(), vec![]),
                    };
                    tv.push(("mk", js(&mk)));
                    tv.push(("mo", arr(mo)));
                    tv.push(("to", target.index().to_string()));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    tv.push(("t", "\"goto\"".into()));
                    tv.push(("to", real_target.index().to_string()));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    tv.push(("t", "\"goto\"".into()));
                    tv.push(("to", real_target.index().to_string()));
                }
                o => {
                    tv.push(("t", "\"other\"".into()));
                    tv.push(("dbg", js(&format!("{:?}", o))));
                }
            }
            blocks.push(obj(vec![
                ("s", arr(st)),
                ("t", obj(tv)),
                ("c", b.is_cleanup.to_string()),
            ]));
        }
        v.push(("blocks", arr(blocks)));
        obj(v)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("HTPFACTS_CRATE").unwrap_or_else(|_| "htp".into());
        let out = match std::env::var("HTPFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let cx = Cx { tcx };
        let mut fns = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_coroutine(d) {
                        continue;
                    }
                    let id = cx.path(d);
                    let body = tcx.optimized_mir(d);
                    let k = if kind == DefKind::Closure { "closure" } else { "fn" };
                    fns.push(cx.body(&id, k, d, body));
                    for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        fns.push(cx.body(&format!("{}::promoted[{}]", id, pi.index()), "promoted", d, pb));
                    }
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, d);
                    let mut init = vec![];
                    if let ty::Array(e, _) = t.kind() {
                        if *e == tcx.types.u8 {
                            if let Ok(a) = tcx.eval_static_initializer(d) {
                                let a = a.inner();
                                if a.len() <= 4096 {
                                    init = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).iter().map(|x| x.to_string()).collect();
                                }
                            }
                        }
                    }
                    statics.push(obj(vec![
                        ("init", arr(init)),
                        ("path", js(&cx.path(d))),
                        ("ty", js(&cx.tys(t))),
                        ("mut", (mutability == rustc_hir::Mutability::Mut).to_string()),
                        ("freeze", t.is_freeze(tcx, env).to_string()),
                        ("file", js(&cx.loc(tcx.def_span(d)).0)),
                        ("line", cx.loc(tcx.def_span(d)).1.to_string()),
                    ]));
                    for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        fns.push(cx.body(&format!("{}::promoted[{}]", cx.path(d), pi.index()), "promoted", d, pb));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        fns.push(cx.body(&format!("{}::promoted[{}]", cx.path(d), pi.index()), "promoted", d, pb));
                    }
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        let mut seen = std::collections::BTreeSet::new();
        let mut dump_adt = |d: DefId| {
            if !seen.insert(cx.path(d)) {
                return;
            }
            let adt = tcx.adt_def(d);
            let mut vs = vec![];
            let discs: Vec<_> = if adt.is_enum() {
                adt.discriminants(tcx).map(|(_, x)| x.to_string()).collect()
            } else {
                vec!["0".into()]
            };
            for (vi, vd) in adt.variants().iter_enumerated() {
                vs.push(obj(vec![
                    ("name", js(vd.name.as_str())),
                    ("discr", js(&discs[vi.index()])),
                    (
                        "fields",
                        arr(vd
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let env = ty::TypingEnv::post_analysis(tcx, d);
                                obj(vec![
                                    ("name", js(f.name.as_str())),
                                    ("ty", js(&cx.tys(ft))),
                                    ("pub", f.vis.is_public().to_string()),
                                    ("freeze", ft.is_freeze(tcx, env).to_string()),
                                ])
                            })
                            .collect()),
                    ),
                ]));
            }
            adts.push(obj(vec![
                ("path", js(&cx.path(d))),
                ("kind", js(if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" })),
                ("variants", arr(vs)),
                ("local", d.is_local().to_string()),
            ]));
        };
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                dump_adt(d);
            }
        }
        for n in ["Option", "Result"] {
            if let Some(d) = tcx.get_diagnostic_item(rustc_span::Symbol::intern(n)) {
                dump_adt(d);
            }
        }
        let s = format!(
            "{{\"crate\":{},\"fns\":[\n{}\n],\"adts\":[\n{}\n],\"statics\":[{}]}}",
            js(tcx.crate_name(LOCAL_CRATE).as_str()),
            fns.join(",\n"),
            adts.join(",\n"),
            statics.join(",\n")
        );
        let tmp = format!("{}.tmp{}", out, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &out).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1].
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    if std::env::var("HTPFACTS_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Adangerous_implicit_autorefs".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
