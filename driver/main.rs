// MIR fact extractor: a rustc driver that, for the crates named in GK_CRATES, dumps the
// resolved, drop-elaborated MIR (for async bodies: the borrow-checked MIR before the
// state-machine transform, so that suspension points are still visible) as JSON into GK_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

thread_local! {
    static PROMOTED: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

fn orig_mir_promoted() -> &'static std::sync::OnceLock<usize> {
    static O: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    &O
}

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::N(x.try_into().ok().unwrap_or(-1))
}
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => {
                let _ = write!(o, "{x}");
            }
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(self.tcx.def_path_str(d))))
    }
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(t.to_string())))
    }
    fn span(&self, sp: rustc_span::Span) -> (String, usize, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", lo.file.name)),
            other => format!("{other:?}"),
        };
        (f, lo.line, lo.col.0 + 1)
    }
    fn note_adt(&mut self, t: Ty<'tcx>) -> Option<String> {
        if let ty::Adt(def, _) = t.kind() {
            let p = self.path(def.did());
            if !self.adts.contains_key(&p) {
                self.adts.insert(p.clone(), J::Null);
                let mut vs = vec![];
                for (i, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        n(def.discriminant_for_variant(self.tcx, i).val as i128)
                    } else {
                        n(0)
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = self.tcx.type_of(f.did).skip_binder();
                        fs.push(J::O(vec![
                            ("name", s(f.name.to_string())),
                            ("ty", s(self.ty(fty))),
                            ("pub", J::B(f.vis.is_public())),
                        ]));
                    }
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
                }
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let j = J::O(vec![
                    ("kind", s(kind)),
                    ("local", J::B(def.did().is_local())),
                    ("variants", J::A(vs)),
                ]);
                self.adts.insert(p.clone(), j);
            }
            Some(p)
        } else {
            None
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let cur = pty;
            match e {
                ProjectionElem::Deref => proj.push(J::A(vec![s("*")])),
                ProjectionElem::Field(f, _) => {
                    let name = match cur.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(cur.ty);
                            let v = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[f].name.to_string()
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                            names.get(f).map(|x| x.to_string()).unwrap_or_else(|| f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    proj.push(J::A(vec![s("."), s(name), n(f.as_usize() as i128)]));
                }
                ProjectionElem::Index(l) => proj.push(J::A(vec![s("[]"), n(l.as_usize() as i128)])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    proj.push(J::A(vec![s("[c]"), n(offset as i128), J::B(from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    proj.push(J::A(vec![s("[..]"), n(from as i128), n(to as i128), J::B(from_end)]))
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match cur.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(cur.ty);
                            def.variant(v).name.to_string()
                        }
                        _ => v.as_usize().to_string(),
                    };
                    proj.push(J::A(vec![s("as"), s(name)]));
                }
                _ => {}
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.as_usize() as i128), J::A(proj)])
    }

    fn callee(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(d))), ("id", s(self.id(d)))];
        o.push((
            "args",
            J::A(
                args.iter()
                    .filter_map(|a| a.as_type())
                    .map(|t| {
                        self.note_adt(t.peel_refs());
                        s(self.ty(t))
                    })
                    .collect(),
            ),
        ));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("method", s(tcx.item_name(d).to_string())));
            if let Some(t) = args.types().next() {
                o.push(("selfty", s(self.ty(t))));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    if rd != d {
                        o.push(("rpath", s(self.path(rd))));
                        o.push(("rid", s(self.id(rd))));
                    }
                }
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::B(true)));
            let var = tcx.parent(d);
            let (adt, vname) = if tcx.def_kind(var) == DefKind::Variant {
                (tcx.parent(var), tcx.item_name(var).to_string())
            } else {
                (var, tcx.item_name(var).to_string())
            };
            o.push(("adt", s(self.path(adt))));
            o.push(("variant", s(vname)));
        }
        J::O(o)
    }

    fn bytes_of(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn konst(&mut self, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let k = c.const_;
        let t = k.ty();
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", s(self.ty(t)))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
            o.push(("fn", self.callee(env, *d, args)));
            return J::O(o);
        }
        if let ty::Closure(d, _) = t.kind() {
            o.push(("closure", s(self.id(*d))));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = k {
            if let Some(p) = u.promoted {
                o.push(("promoted", s(format!("{}::promoted[{}]", self.id(u.def), p.as_usize()))));
                return J::O(o);
            }
            o.push(("item", s(self.path(u.def))));
            o.push(("itemid", s(self.id(u.def))));
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(si) = k.try_eval_scalar_int(tcx, env) {
                let bits = si.to_bits(si.size());
                let v = if t.is_signed() { si.size().sign_extend(bits) as i128 } else { bits as i128 };
                o.push(("v", n(v)));
                return J::O(o);
            }
        }
        let ev = match k {
            Const::Val(v, _) => Some(v),
            _ => k.eval(tcx, env, c.span).ok(),
        };
        if let Some(v) = ev {
            match (v, t.kind()) {
                (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _)) if inner.is_str() || inner.is_slice() => {
                    if let Some(b) = self.bytes_of(alloc_id, 0, meta as usize) {
                        if inner.is_str() {
                            o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                        } else {
                            o.push(("bytes", J::A(b.iter().map(|x| n(*x as i128)).collect())));
                        }
                    }
                }
                (ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                    if let ty::Array(et, len) = inner.kind() {
                        if let (true, Some(l)) = (*et == tcx.types.u8, len.try_to_target_usize(tcx)) {
                            let (prov, off) = p.into_raw_parts();
                            if let Some(b) = self.bytes_of(prov.alloc_id(), off.bytes() as usize, l as usize) {
                                o.push(("bytes", J::A(b.iter().map(|x| n(*x as i128)).collect())));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(p) = self.note_adt(t.peel_refs()) {
            o.push(("adt", s(p)));
        }
        o.push(("dbg", s(with_no_trimmed_paths!(format!("{k}")))));
        J::O(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, *p))]),
            Operand::Constant(c) => self.konst(env, c),
            other => J::O(vec![("k", s("rt")), ("dbg", s(format!("{other:?}")))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, _) => J::O(vec![("k", s("use")), ("a", self.operand(body, env, op))]),
            Rvalue::Repeat(op, c) => J::O(vec![
                ("k", s("repeat")),
                ("a", self.operand(body, env, op)),
                ("n", s(c.to_string())),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, *p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("p", self.place(body, *p))]),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&body.local_decls, self.tcx);
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", s(format!("{k:?}"))),
                    ("a", self.operand(body, env, op)),
                    ("from", s(self.ty(from))),
                    ("ty", s(self.ty(*t))),
                ])
            }
            Rvalue::BinaryOp(op, ab) => {
                let lty = ab.0.ty(&body.local_decls, self.tcx);
                J::O(vec![
                    ("k", s("bin")),
                    ("op", s(format!("{op:?}"))),
                    ("a", self.operand(body, env, &ab.0)),
                    ("b", self.operand(body, env, &ab.1)),
                    ("ty", s(self.ty(lty))),
                ])
            }
            Rvalue::UnaryOp(op, a) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(body, env, a)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let adt = self.note_adt(t);
                J::O(vec![
                    ("k", s("discr")),
                    ("p", self.place(body, *p)),
                    ("adt", adt.map(s).unwrap_or(J::Null)),
                ])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o: Vec<(&'static str, J)> = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        o.push(("ak", s("adt")));
                        let def = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, def, args);
                        self.note_adt(t);
                        o.push(("adt", s(self.path(*d))));
                        o.push(("ty", s(self.ty(t))));
                        o.push(("variant", s(def.variant(*v).name.to_string())));
                        o.push((
                            "fields",
                            J::A(def.variant(*v).fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ));
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        o.push((
                            "ak",
                            s(if matches!(**k, AggregateKind::Coroutine(..)) { "coroutine" } else { "closure" }),
                        ));
                        o.push(("id", s(self.id(*d))));
                        let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                        o.push(("fields", J::A(names.iter().map(|x| s(x.to_string())).collect())));
                    }
                    AggregateKind::RawPtr(..) => o.push(("ak", s("rawptr"))),
                }
                o.push(("ops", J::A(ops.iter().map(|x| self.operand(body, env, x)).collect())));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("a", J::O(vec![("k", s("copy")), ("p", self.place(body, *p))])),
            ]),
            Rvalue::Reborrow(_, _, p) => J::O(vec![
                ("k", s("use")),
                ("a", J::O(vec![("k", s("copy")), ("p", self.place(body, *p))])),
            ]),
            other => J::O(vec![("k", s("other")), ("dbg", s(format!("{other:?}")))]),
        }
    }

    fn body(&mut self, id: String, path: String, kind: &str, body: &Body<'tcx>, parent: Option<String>) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, body.source.def_id());
        let (file, line, _) = self.span(body.span);
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", s(id)),
            ("path", s(path)),
            ("kind", s(kind)),
            ("file", s(file.clone())),
            ("line", n(line as i128)),
            ("argc", n(body.arg_count as i128)),
        ];
        if let Some(p) = parent {
            o.push(("parent", s(p)));
        }
        let mut ls = vec![];
        for d in body.local_decls.iter() {
            self.note_adt(d.ty.peel_refs());
            ls.push(s(self.ty(d.ty)));
        }
        o.push(("locals", J::A(ls)));
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                dbg.push(J::A(vec![s(v.name.to_string()), self.place(body, p)]));
            }
        }
        o.push(("vars", J::A(dbg)));
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for st in &bb.statements {
                let (f, l, c) = self.span(st.source_info.span);
                let sp = if f == file { J::A(vec![n(l as i128), n(c as i128)]) } else { J::A(vec![n(l as i128), n(c as i128), s(f)]) };
                match &st.kind {
                    StatementKind::Assign(pr) => {
                        let (p, rv) = &**pr;
                        sts.push(J::A(vec![s("="), self.place(body, *p), self.rvalue(body, env, rv), sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(J::A(vec![s("setdiscr"), self.place(body, **place), n(variant_index.as_usize() as i128), sp]));
                    }
                    StatementKind::StorageDead(l) => sts.push(J::A(vec![s("dead"), n(l.as_usize() as i128), J::Null, sp])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (f, l, c) = self.span(t.source_info.span);
            let sp = if f == file { J::A(vec![n(l as i128), n(c as i128)]) } else { J::A(vec![n(l as i128), n(c as i128), s(f)]) };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize() as i128))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let vs = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![n(v as i128), n(b.as_usize() as i128)]))
                        .collect();
                    J::O(vec![
                        ("k", s("switch")),
                        ("d", self.operand(body, env, discr)),
                        ("ty", s(self.ty(dty))),
                        ("ts", J::A(vs)),
                        ("o", n(targets.otherwise().as_usize() as i128)),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let dty = place.ty(&body.local_decls, tcx).ty;
                    J::O(vec![
                        ("k", s("drop")),
                        ("p", self.place(body, *place)),
                        ("ty", s(self.ty(dty))),
                        ("needs", J::B(dty.needs_drop(tcx, env))),
                        ("t", n(target.as_usize() as i128)),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut v = vec![("k", s("call"))];
                    v.push(("f", self.operand(body, env, func)));
                    v.push(("args", J::A(args.iter().map(|a| self.operand(body, env, &a.node)).collect())));
                    v.push(("d", self.place(body, *destination)));
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    self.note_adt(dty.peel_refs());
                    v.push(("dty", s(self.ty(dty))));
                    v.push(("t", target.map(|b| n(b.as_usize() as i128)).unwrap_or(J::Null)));
                    J::O(v)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(body, env, len), self.operand(body, env, index)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{op:?}"),
                            vec![self.operand(body, env, a), self.operand(body, env, b)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(body, env, a)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(body, env, a)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(body, env, a)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("c", self.operand(body, env, cond)),
                        ("e", J::B(*expected)),
                        ("m", s(kind)),
                        ("ops", J::A(ops)),
                        ("t", n(target.as_usize() as i128)),
                    ])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => J::O(vec![
                    ("k", s("yield")),
                    ("a", self.operand(body, env, value)),
                    ("d", self.place(body, *resume_arg)),
                    ("t", n(resume.as_usize() as i128)),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize() as i128))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize() as i128))])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("resume"))]),
                TerminatorKind::CoroutineDrop => J::O(vec![("k", s("codrop"))]),
                other => J::O(vec![("k", s("other")), ("dbg", s(format!("{other:?}")))]),
            };
            bbs.push(J::O(vec![("s", J::A(sts)), ("t", tj), ("sp", sp), ("cl", J::B(bb.is_cleanup))]));
        }
        o.push(("bbs", J::A(bbs)));
        J::O(o)
    }

    fn dump(&mut self) -> J {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut impls = vec![];
        for &def in tcx.mir_keys(()) {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            let id = self.id(did);
            let path = self.path(did);
            let fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let parent = if kind == DefKind::Closure { Some(self.id(tcx.parent(did))) } else { None };
            let k = if tcx.is_coroutine(did) {
                "coroutine"
            } else {
                match kind {
                    DefKind::Closure => "closure",
                    DefKind::Fn => "fn",
                    DefKind::AssocFn => "method",
                    _ => "const",
                }
            };
            if tcx.is_trivial_const(did) {
                continue;
            }
            if tcx.is_coroutine(did) {
                let b = PROMOTED.with(|p| p.borrow().get(&def).cloned());
                if let Some(b) = b {
                    let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                    let j = self.body(id.clone(), path.clone(), k, &b, parent.clone());
                    bodies.push(j);
                }
            } else if fnlike {
                let st = tcx.mir_drops_elaborated_and_const_checked(def);
                let b: Body<'tcx> = if st.is_stolen() { tcx.optimized_mir(did).clone() } else { st.borrow().clone() };
                let mut j = self.body(id.clone(), path.clone(), k, &b, parent.clone());
                if let J::O(o) = &mut j {
                    if kind == DefKind::AssocFn || kind == DefKind::Fn {
                        o.push(("vis", s(if tcx.visibility(did).is_public() { "pub" } else { "priv" })));
                        o.push(("name", s(tcx.item_name(did).to_string())));
                    }
                    if kind == DefKind::AssocFn {
                        if let Some(im) = tcx.impl_of_assoc(did) {
                            o.push(("implself", s(self.ty(tcx.type_of(im).skip_binder()))));
                            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                                o.push(("impltrait", s(self.path(tr.skip_binder().def_id))));
                            }
                        } else if let Some(tr) = tcx.trait_of_assoc(did) {
                            o.push(("intrait", s(self.path(tr))));
                        }
                    }
                    if let Some((f, l, _)) = Some(self.span(tcx.def_span(did))) {
                        let _ = (f, l);
                    }
                }
                if let J::O(o) = &mut j {
                    let g = ty::GenericArgs::identity_for_item(tcx, did);
                    o.push(("generics", J::A(g.types().map(|t| s(self.ty(t))).collect())));
                }
                bodies.push(j);
            } else if !matches!(kind, DefKind::Static { .. }) {
                let b = tcx.mir_for_ctfe(did);
                let j = self.body(id.clone(), path.clone(), k, b, None);
                bodies.push(j);
            }
            for (pi, pb) in tcx.promoted_mir(did).iter_enumerated() {
                let j = self.body(
                    format!("{}::promoted[{}]", id, pi.as_usize()),
                    format!("{}::promoted[{}]", path, pi.as_usize()),
                    "promoted",
                    pb,
                    Some(id.clone()),
                );
                bodies.push(j);
            }
        }
        let mut statics = vec![];
        for item in tcx.hir_crate_items(()).definitions() {
            let did = item.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).skip_binder();
                    let methods: Vec<(String, J)> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .filter(|a| a.is_fn())
                        .map(|a| (a.name().to_string(), s(self.id(a.def_id))))
                        .collect();
                    impls.push(J::O(vec![
                        ("trait", s(self.path(tr.def_id))),
                        ("self", s(self.ty(tr.self_ty()))),
                        ("methods", J::M(methods)),
                        ("auto", J::B(tcx.is_automatically_derived(did))),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).skip_binder();
                    statics.push(J::O(vec![
                        ("path", s(self.path(did))),
                        ("mut", J::B(mutability.is_mut())),
                        ("ty", s(self.ty(t))),
                    ]));
                }
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(did).skip_binder();
                    self.note_adt(t);
                }
                _ => {}
            }
        }
        let adts = J::M(self.adts.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("bodies", J::A(bodies)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("adts", adts),
        ])
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_, p| {
            let _ = orig_mir_promoted().set(p.queries.mir_promoted as usize);
            p.queries.mir_promoted = |tcx, def| {
                let f: for<'a> fn(
                    TyCtxt<'a>,
                    LocalDefId,
                ) -> (
                    &'a rustc_data_structures::steal::Steal<Body<'a>>,
                    &'a rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'a>>>,
                ) = unsafe { std::mem::transmute(*orig_mir_promoted().get().unwrap()) };
                let r = f(tcx, def);
                if tcx.is_coroutine(def.to_def_id()) {
                    let b = r.0.borrow().clone();
                    let b: Body<'static> = unsafe { std::mem::transmute(b) };
                    PROMOTED.with(|p| p.borrow_mut().insert(def, b));
                }
                r
            };
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, adts: BTreeMap::new() };
        let j = cx.dump();
        let mut out = String::new();
        j.w(&mut out);
        std::fs::write(&self.out, out).expect("cannot write facts");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the rustc path.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let name = opt("--crate-name").unwrap_or_default();
    let ty = opt("--crate-type").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let want = std::env::var("GK_CRATES").unwrap_or_default();
    let out = std::env::var("GK_OUT").unwrap_or_default();
    if !is_test && !out.is_empty() && want.split(',').any(|w| w == name) && name != "build_script_build" {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
        let out = format!("{out}/{name}-{}.json", if ty == "bin" { "bin" } else { "lib" });
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
