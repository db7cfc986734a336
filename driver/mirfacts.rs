//! mirfacts: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) that dumps, for every body
//! of a workspace crate, the type-checked MIR (`mir_promoted`, i.e. before drop
//! elaboration and before async bodies are turned into state machines) with resolved
//! callees, evaluated constants, ADT layouts and trait-impl tables, as one JSON file per
//! crate in $MIRFACTS_OUT.  It does not judge anything; /verif/sa does.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_structures;
extern crate rustc_span;

use rustc_ast::attr::AttributeExt;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::BTreeSet;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    is_bin: bool,
    adts: Vec<DefId>,
}

struct Bx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    owner: String,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, did: DefId) -> String {
        let mut krate = self.tcx.crate_name(did.krate).to_string();
        if did.krate == LOCAL_CRATE && self.is_bin {
            krate.push_str("_bin");
        }
        format!("{}{}", krate, self.tcx.def_path(did).to_string_no_crate_verbose())
    }
    fn name(&self, did: DefId) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
            self.tcx.def_path_str(did)
        ))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(format!("{}", t)))
    }
    /// definition-path head of a type: independent of re-exports and of generic arguments
    fn tyhead(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.key(d.did()),
            ty::Ref(_, i, _) => format!("&{}", self.tyhead(*i)),
            ty::Slice(_) => "[T]".into(),
            ty::Array(..) => "[T;N]".into(),
            ty::Str => "str".into(),
            ty::Closure(d, _) => self.key(*d),
            ty::Coroutine(d, _) => self.key(*d),
            ty::Param(p) => format!("?{}", p.name),
            ty::Dynamic(..) => "dyn".into(),
            ty::Tuple(_) => "tuple".into(),
            ty::Alias(..) => "?alias".into(),
            _ => self.tystr(t),
        }
    }
    /// canonical callee name: `Trait::method`, `Type::method` or the path of a free function
    fn cname(&self, did: DefId) -> String {
        let tcx = self.tcx;
        if let Some(tr) = tcx.trait_of_assoc(did) {
            return format!("{}::{}", self.key(tr), tcx.item_name(did));
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                return format!("{}::{}", self.key(tr.skip_binder().def_id), tcx.item_name(did));
            }
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            return format!("{}::{}", self.tyhead(st), tcx.item_name(did));
        }
        self.key(did)
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, loc.line)
    }
    fn macros(&self, sp: Span) -> String {
        list(sp.macro_backtrace().filter_map(|d| match d.kind {
            rustc_span::ExpnKind::Macro(_, n) => Some(esc(n.as_str())),
            rustc_span::ExpnKind::Desugaring(k) => Some(esc(&format!("~{:?}", k))),
            _ => None,
        }))
    }
    fn adt_of(&mut self, t: Ty<'tcx>) -> Option<DefId> {
        if let ty::Adt(d, _) = t.kind() {
            self.adts.push(d.did());
            Some(d.did())
        } else {
            None
        }
    }
    /// workspace Drop impls that dropping a value of type `t` may run
    fn drop_impls(&self, t: Ty<'tcx>, out: &mut BTreeSet<String>, depth: usize) {
        if depth > 6 {
            return;
        }
        match t.kind() {
            ty::Adt(d, args) => {
                if let Some(dt) = self.tcx.adt_destructor(d.did()) {
                    out.insert(format!("{}|{}", self.key(dt.did), self.name(d.did())));
                }
                for a in args.types() {
                    self.drop_impls(a, out, depth + 1);
                }
                if d.did().is_local() {
                    for f in d.all_fields() {
                        self.drop_impls(f.ty(self.tcx, args).skip_norm_wip(), out, depth + 1);
                    }
                }
            }
            ty::Tuple(ts) => {
                for a in ts.iter() {
                    self.drop_impls(a, out, depth + 1);
                }
            }
            ty::Array(e, _) | ty::Slice(e) => self.drop_impls(*e, out, depth + 1),
            _ => {}
        }
    }
}

impl<'a, 'tcx> Bx<'a, 'tcx> {
    /// what the documentation of a foreign function says about panics
    fn panic_doc(&self, did: DefId) -> Option<String> {
        if did.is_local() {
            return None;
        }
        let mut doc = String::new();
        for a in self.cx.tcx.get_all_attrs(did) {
            if let Some(s) = a.doc_str() {
                doc.push_str(s.as_str());
                doc.push('\n');
            }
        }
        // prose only: examples show panics of all kinds
        let mut code = false;
        let mut text = String::new();
        for l in doc.lines() {
            if l.trim_start().starts_with("```") {
                code = !code;
            } else if !code {
                text.push_str(l.trim());
                text.push('\n');
            }
        }
        if !text.to_lowercase().contains("panic") {
            return None;
        }
        // keep the paragraphs that speak of panics, and the one after the heading
        let mut out = Vec::new();
        let mut head = false;
        for p in text.split("\n\n") {
            let has = p.to_lowercase().contains("panic");
            if has || head {
                out.push(p.replace('\n', " "));
            }
            head = has && p.starts_with('#') && p.lines().count() == 1;
        }
        Some(out.join(" ").chars().take(400).collect())
    }

    fn fninfo(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"key\":{},\"cn\":{},\"name\":{},\"crate\":{}",
            esc(&self.cx.key(did)),
            esc(&self.cx.cname(did)),
            esc(&self.cx.name(did)),
            esc(tcx.crate_name(did.krate).as_str())
        );
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.cx.key(tr)));
            if let Some(s) = args.types().next() {
                let _ = write!(
                    o,
                    ",\"self\":{},\"selfhead\":{}",
                    esc(&self.cx.tystr(s)),
                    esc(&self.cx.tyhead(s))
                );
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, did, args2) {
                if i.def_id() != did {
                    let _ = write!(
                        o,
                        ",\"rkey\":{},\"rname\":{},\"rcrate\":{}",
                        esc(&self.cx.key(i.def_id())),
                        esc(&self.cx.name(i.def_id())),
                        esc(tcx.crate_name(i.def_id().krate).as_str())
                    );
                }
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let args2 = tcx.erase_and_anonymize_regions(args);
            let mut r = self.panic_doc(did);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, did, args2) {
                if i.def_id() != did {
                    r = self.panic_doc(i.def_id()).or(r);
                }
            }
            if let Some(d) = r {
                let _ = write!(o, ",\"panics\":{}", esc(&d));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            // tuple struct / variant constructor used as a function
            let parent = tcx.parent(did);
            let (adt, var) = if tcx.def_kind(parent) == DefKind::Variant {
                (tcx.parent(parent), tcx.item_name(parent).to_string())
            } else {
                (parent, String::new())
            };
            let _ = write!(
                o,
                ",\"ctor\":{{\"adt\":{},\"var\":{}}}",
                esc(&self.cx.key(adt)),
                esc(&var)
            );
            self.cx.adts.push(adt);
        }
        let targs = list(args.types().map(|t| esc(&self.cx.tystr(t))));
        let heads = list(args.types().map(|t| esc(&self.cx.tyhead(t))));
        let _ = write!(o, ",\"args\":{},\"heads\":{}}}", targs, heads);
        o
    }

    fn bytes_json(b: &[u8]) -> String {
        match std::str::from_utf8(b) {
            Ok(s) => format!("{{\"str\":{}}}", esc(s)),
            Err(_) => format!("{{\"bytes\":{}}}", list(b.iter().map(|x| x.to_string()))),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(did, args) = t.kind() {
            return format!("{{\"fn\":{}}}", self.fninfo(*did, args.skip_binder()));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"promoted\":{},\"ty\":{}}}",
                    esc(&format!("{}::promoted[{}]", self.owner, p.index())),
                    esc(&self.cx.tystr(t))
                );
            }
        }
        let named = if let Const::Unevaluated(u, _) = c.const_ {
            format!(",\"item\":{}", esc(&self.cx.name(u.def)))
        } else {
            String::new()
        };
        let tys = esc(&self.cx.tystr(t));
        let val = match c.const_.eval(tcx, self.env, c.span) {
            Ok(v) => v,
            Err(_) => return format!("{{\"opaque\":true,\"ty\":{}{}}}", tys, named),
        };
        match val {
            ConstValue::ZeroSized => {
                if let ty::Adt(d, _) = t.kind() {
                    self.cx.adts.push(d.did());
                    let var = if d.is_enum() { "?".to_string() } else { String::new() };
                    return format!(
                        "{{\"zst\":{},\"adt\":{},\"var\":{}{}}}",
                        tys,
                        esc(&self.cx.key(d.did())),
                        esc(&var),
                        named
                    );
                }
                format!("{{\"zst\":{}{}}}", tys, named)
            }
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                if t.is_bool() {
                    return format!("{{\"bool\":{}{}}}", bits != 0, named);
                }
                if t.is_char() {
                    let ch = char::from_u32(bits as u32).unwrap_or('?');
                    return format!("{{\"char\":{}{}}}", esc(&ch.to_string()), named);
                }
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() {
                        self.cx.adts.push(d.did());
                        for (vi, dv) in d.discriminants(tcx) {
                            if dv.val == bits {
                                return format!(
                                    "{{\"adt\":{},\"var\":{}{}}}",
                                    esc(&self.cx.key(d.did())),
                                    esc(d.variant(vi).name.as_str()),
                                    named
                                );
                            }
                        }
                    }
                }
                if t.is_signed() {
                    return format!("{{\"int\":{},\"ty\":{}{}}}", i.to_int(i.size()), tys, named);
                }
                format!("{{\"int\":{},\"ty\":{}{}}}", bits, tys, named)
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                // reference to a sized constant: byte arrays are what format templates are
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(e, _) = inner.kind() {
                        if *e == tcx.types.u8 {
                            if let interpret::GlobalAlloc::Memory(m) =
                                tcx.global_alloc(prov.alloc_id())
                            {
                                let a = m.inner();
                                let n = a.size().bytes_usize();
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    off.bytes_usize()..n,
                                );
                                return format!("{{\"bytes\":{}}}", list(b.iter().map(|x| x.to_string())));
                            }
                        }
                    }
                }
                format!("{{\"opaque\":true,\"ty\":{}{}}}", tys, named)
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    return Self::bytes_json(b);
                }
                format!("{{\"opaque\":true,\"ty\":{}{}}}", tys, named)
            }
            ConstValue::Indirect { .. } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            return Self::bytes_json(b);
                        }
                    }
                }
                format!("{{\"opaque\":true,\"ty\":{}{}}}", tys, named)
            }
        }
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = format!("[{}", p.local.index());
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            self.cx.adts.push(d.did());
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() || d.is_struct() {
                                d.variant(v).fields[f].name.to_string()
                            } else {
                                f.index().to_string()
                            }
                        }
                        _ => f.index().to_string(),
                    };
                    let _ = write!(o, ",{{\"f\":{}}}", esc(&nm));
                }
                ProjectionElem::Downcast(sym, vi) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variant(vi).name.to_string(),
                        _ => sym.map(|s| s.to_string()).unwrap_or_else(|| vi.index().to_string()),
                    };
                    let _ = write!(o, ",{{\"v\":{}}}", esc(&nm));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",{{\"i\":{}}}", l.index());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(
                        o,
                        ",{{\"ci\":{},\"min\":{},\"end\":{}}}",
                        offset, min_length, from_end
                    );
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",{{\"sub\":[{},{},{}]}}", from, to, from_end);
                }
                _ => o.push_str(",\"?\""),
            }
            pt = pt.projection_ty(tcx, el);
        }
        o.push(']');
        o
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(*p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(*p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(c)),
            _ => "{\"k\":{\"bool\":false}}".to_string(),
        }
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>) -> String {
        let tcx = self.cx.tcx;
        match rv {
            Rvalue::Use(op, ..) => format!("{{\"t\":\"use\",\"a\":{}}}", self.operand(op)),
            Rvalue::Repeat(op, _) => format!("{{\"t\":\"repeat\",\"a\":{}}}", self.operand(op)),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"t\":\"ref\",\"mut\":{},\"fake\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                matches!(bk, BorrowKind::Fake(_)),
                self.place(*p)
            ),
            Rvalue::RawPtr(_, p) => {
                format!("{{\"t\":\"ref\",\"mut\":true,\"raw\":true,\"p\":{}}}", self.place(*p))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"t\":\"use\",\"a\":{{\"cp\":{}}}}}", self.place(*p))
            }
            Rvalue::Reborrow(_, _, p) => {
                format!("{{\"t\":\"use\",\"a\":{{\"cp\":{}}}}}", self.place(*p))
            }
            Rvalue::Cast(k, op, t) => format!(
                "{{\"t\":\"cast\",\"kind\":{},\"a\":{},\"ty\":{}}}",
                esc(&format!("{:?}", k)),
                self.operand(op),
                esc(&self.cx.tystr(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "{{\"t\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                esc(&format!("{:?}", b)),
                self.operand(&ops.0),
                self.operand(&ops.1)
            ),
            Rvalue::UnaryOp(u, op) => format!(
                "{{\"t\":\"un\",\"op\":{},\"a\":{}}}",
                esc(&format!("{:?}", u)),
                self.operand(op)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, tcx).ty;
                let mut map = String::from("{}");
                if let ty::Adt(d, _) = t.kind() {
                    self.cx.adts.push(d.did());
                    if d.is_enum() {
                        map = format!(
                            "{{{}}}",
                            d.discriminants(tcx)
                                .map(|(vi, dv)| format!(
                                    "\"{}\":{}",
                                    dv.val,
                                    esc(d.variant(vi).name.as_str())
                                ))
                                .collect::<Vec<_>>()
                                .join(",")
                        );
                    }
                }
                format!("{{\"t\":\"discr\",\"p\":{},\"map\":{}}}", self.place(*p), map)
            }
            Rvalue::Aggregate(k, ops) => {
                let head = match &**k {
                    AggregateKind::Array(_) => "\"agg\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"agg\":\"tuple\"".to_string(),
                    AggregateKind::Adt(did, vi, _, _, active) => {
                        self.cx.adts.push(*did);
                        let d = tcx.adt_def(*did);
                        let v = d.variant(*vi);
                        let names: Vec<String> = match active {
                            Some(a) => vec![esc(v.fields[*a].name.as_str())],
                            None => v.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "\"agg\":\"adt\",\"adt\":{},\"enum\":{},\"var\":{},\"names\":{}",
                            esc(&self.cx.key(*did)),
                            d.is_enum(),
                            esc(v.name.as_str()),
                            list(names)
                        )
                    }
                    AggregateKind::Closure(did, _) => {
                        format!("\"agg\":\"closure\",\"def\":{}", esc(&self.cx.key(*did)))
                    }
                    AggregateKind::Coroutine(did, _) => {
                        format!("\"agg\":\"coroutine\",\"def\":{}", esc(&self.cx.key(*did)))
                    }
                    AggregateKind::CoroutineClosure(did, _) => {
                        format!("\"agg\":\"corclosure\",\"def\":{}", esc(&self.cx.key(*did)))
                    }
                    AggregateKind::RawPtr(..) => "\"agg\":\"rawptr\"".to_string(),
                };
                let a = list(ops.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                format!("{{\"t\":\"agg\",{},\"ops\":{}}}", head, a)
            }
            _ => format!("{{\"t\":\"other\",\"dbg\":{}}}", esc(&format!("{:?}", rv))),
        }
    }

    fn block(&mut self, bb: &BasicBlockData<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut st = Vec::new();
        for s in &bb.statements {
            match &s.kind {
                StatementKind::Assign(b) => {
                    let (p, rv) = &**b;
                    let ps = self.place(*p);
                    let rvs = self.rvalue(rv);
                    st.push(format!(
                        "{{\"s\":\"=\",\"p\":{},\"r\":{},\"sp\":{}}}",
                        ps,
                        rvs,
                        esc(&self.cx.span(s.source_info.span))
                    ));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let t = place.ty(&self.body.local_decls, tcx).ty;
                    let v = match t.kind() {
                        ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                        _ => variant_index.index().to_string(),
                    };
                    st.push(format!(
                        "{{\"s\":\"setdiscr\",\"p\":{},\"v\":{}}}",
                        self.place(**place),
                        esc(&v)
                    ));
                }
                StatementKind::StorageDead(l) => {
                    st.push(format!("{{\"s\":\"dead\",\"l\":{}}}", l.index()));
                }
                _ => {}
            }
        }
        let term = bb.terminator();
        let sp = term.source_info.span;
        let t = match &term.kind {
            TerminatorKind::Goto { target, .. } => {
                format!("\"t\":\"goto\",\"to\":{}", target.index())
            }
            TerminatorKind::FalseEdge { real_target, .. }
            | TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("\"t\":\"goto\",\"to\":{}", real_target.index())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let dty = discr.ty(&self.body.local_decls, tcx);
                let arms = list(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.index())));
                format!(
                    "\"t\":\"switch\",\"on\":{},\"bool\":{},\"arms\":{},\"else\":{}",
                    self.operand(discr),
                    dty.is_bool(),
                    arms,
                    targets.otherwise().index()
                )
            }
            TerminatorKind::Return => "\"t\":\"return\"".to_string(),
            TerminatorKind::Unreachable => "\"t\":\"unreachable\"".to_string(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                "\"t\":\"unwind\"".to_string()
            }
            TerminatorKind::CoroutineDrop => "\"t\":\"unwind\"".to_string(),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(&self.body.local_decls, tcx).ty;
                let mut out = BTreeSet::new();
                self.cx.drop_impls(t, &mut out, 0);
                format!(
                    "\"t\":\"drop\",\"p\":{},\"ty\":{},\"impls\":{},\"to\":{}",
                    self.place(*place),
                    esc(&self.cx.tystr(t)),
                    list(out.iter().map(|s| esc(s))),
                    target.index()
                )
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let fty = func.ty(&self.body.local_decls, tcx);
                let callee = match fty.kind() {
                    ty::FnDef(did, ga) => self.fninfo(*did, ga.skip_binder()),
                    _ => format!("{{\"ptr\":{}}}", self.operand(func)),
                };
                let a = list(args.iter().map(|x| self.operand(&x.node)).collect::<Vec<_>>());
                let at = list(
                    args.iter()
                        .map(|x| esc(&self.cx.tystr(x.node.ty(&self.body.local_decls, tcx))))
                        .collect::<Vec<_>>(),
                );
                let dt = destination.ty(&self.body.local_decls, tcx).ty;
                self.cx.adt_of(dt);
                format!(
                    "\"t\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"dt\":{},\"dh\":{},\"to\":{},\"fsp\":{}",
                    callee,
                    a,
                    at,
                    self.place(*destination),
                    esc(&self.cx.tystr(dt)),
                    esc(&self.cx.tyhead(dt)),
                    target.map(|b| b.index() as i64).unwrap_or(-1),
                    esc(&self.cx.span(*fn_span))
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let kind = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                    AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => {
                        "divzero".to_string()
                    }
                    _ => "other".to_string(),
                };
                let extra = match &**msg {
                    AssertKind::BoundsCheck { len, index } => format!(
                        ",\"len\":{},\"index\":{}",
                        self.operand(len),
                        self.operand(index)
                    ),
                    _ => String::new(),
                };
                format!(
                    "\"t\":\"assert\",\"kind\":{},\"cond\":{},\"exp\":{},\"to\":{}{}",
                    esc(&kind),
                    self.operand(cond),
                    expected,
                    target.index(),
                    extra
                )
            }
            TerminatorKind::Yield { resume, resume_arg, .. } => format!(
                "\"t\":\"yield\",\"to\":{},\"ra\":{}",
                resume.index(),
                self.place(*resume_arg)
            ),
            _ => "\"t\":\"other\"".to_string(),
        };
        format!(
            "{{\"st\":{},\"term\":{{{},\"sp\":{},\"mac\":{}}},\"cleanup\":{}}}",
            list(st),
            t,
            esc(&self.cx.span(sp)),
            self.cx.macros(sp),
            bb.is_cleanup
        )
    }

    fn dump(&mut self, key: &str, name: &str, kind: &str, extra: &str) -> String {
        let locals = list(
            self.body
                .local_decls
                .iter()
                .map(|l| esc(&self.cx.tystr(l.ty)))
                .collect::<Vec<_>>(),
        );
        let mut vars = Vec::new();
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    vars.push(format!("\"{}\":{}", p.local.index(), esc(v.name.as_str())));
                }
            }
        }
        let blocks: Vec<String> = self.body.basic_blocks.iter().map(|b| self.block(b)).collect();
        format!(
            "{{\"key\":{},\"name\":{},\"kind\":{},\"args\":{},\"span\":{}{},\"locals\":{},\"vars\":{{{}}},\"blocks\":[\n{}]}}",
            esc(key),
            esc(name),
            esc(kind),
            self.body.arg_count,
            esc(&self.cx.span(self.body.span)),
            extra,
            locals,
            vars.join(","),
            blocks.join(",\n")
        )
    }
}

fn dump_crate(tcx: TyCtxt<'_>, is_bin: bool, out: &std::path::Path) {
    let mut cx = Cx { tcx, is_bin, adts: Vec::new() };
    // Clone every body first: evaluating constants below steals them.
    let mut bodies: Vec<(LocalDefId, Body<'_>, Vec<Body<'_>>)> = Vec::new();
    for def in tcx.hir_body_owners() {
        if matches!(
            tcx.def_kind(def),
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. }
                | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::SyntheticCoroutineBody
        ) {
            let (b, p) = tcx.mir_promoted(def);
            bodies.push((def, b.borrow().clone(), p.borrow().iter().cloned().collect()));
        }
    }
    let mut items = Vec::new();
    for (def, body, promoted) in &bodies {
        let did = def.to_def_id();
        let key = cx.key(did);
        let name = cx.name(did);
        let kind = match tcx.def_kind(did) {
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => "const",
            _ => "fn",
        };
        let mut extra = String::new();
        if kind == "fn" {
            let _ = write!(extra, ",\"async\":{}", tcx.asyncness(did).is_async());
            let _ = write!(extra, ",\"pub\":{}", tcx.visibility(did).is_public());
            let _ = write!(
                extra,
                ",\"reach\":{}",
                tcx.effective_visibilities(()).is_reachable(*def)
            );
            if let Some(im) = tcx.impl_of_assoc(did) {
                let _ = write!(extra, ",\"impl\":{}", esc(&cx.key(im)));
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"implself\":{}", esc(&cx.tystr(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let trd = tr.skip_binder().def_id;
                    let _ = write!(extra, ",\"impltrait\":{}", esc(&cx.key(trd)));
                }
                let _ = write!(extra, ",\"item\":{}", esc(tcx.item_name(did).as_str()));
            }
        } else {
            let _ = write!(extra, ",\"parent\":{}", esc(&cx.key(tcx.parent(did))));
        }
        if kind == "closure" || kind == "coroutine" {
            let names: Vec<String> =
                tcx.closure_saved_names_of_captured_variables(did).iter().map(|s| esc(s.as_str())).collect();
            let _ = write!(extra, ",\"upvars\":{}", list(names));
            if kind == "coroutine" {
                let _ = write!(extra, ",\"cor\":{}", esc(&format!("{:?}", tcx.coroutine_kind(did))));
            }
        }
        let env = TypingEnv::post_analysis(tcx, did);
        {
            let mut bx = Bx { cx: &mut cx, body, env, owner: key.clone() };
            items.push(bx.dump(&key, &name, kind, &extra));
        }
        for (i, p) in promoted.iter().enumerate() {
            let pk = format!("{}::promoted[{}]", key, i);
            let mut bx = Bx { cx: &mut cx, body: p, env, owner: key.clone() };
            items.push(bx.dump(&pk, &pk, "promoted", ""));
        }
    }
    // ADT table: variants and fields
    let mut adts: Vec<DefId> = cx.adts.clone();
    adts.sort_by_key(|d| tcx.def_path_hash(*d));
    adts.dedup();
    let mut adt_items = Vec::new();
    for did in adts {
        let d = tcx.adt_def(did);
        let vars = list(d.variants().iter().map(|v| {
            format!(
                "{{\"name\":{},\"fields\":{}}}",
                esc(v.name.as_str()),
                list(v.fields.iter().map(|f| {
                    let vis = tcx.visibility(f.did).is_public();
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    format!("[{},{},{}]", esc(f.name.as_str()), vis, esc(&cx.tystr(t)))
                }))
            )
        }));
        let dtor = tcx
            .adt_destructor(did)
            .map(|x| esc(&cx.key(x.did)))
            .unwrap_or("null".into());
        adt_items.push(format!(
            "{{\"name\":{},\"key\":{},\"local\":{},\"enum\":{},\"vars\":{},\"dtor\":{},\"pub\":{}}}",
            esc(&cx.name(did)),
            esc(&cx.key(did)),
            did.is_local(),
            d.is_enum(),
            vars,
            dtor,
            tcx.visibility(did).is_public()
        ));
    }
    // trait impls of this crate
    let mut impls = Vec::new();
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for im in is {
            let st = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
            let ms = list(tcx.associated_items(im.to_def_id()).in_definition_order().filter_map(|a| {
                if matches!(a.kind, ty::AssocKind::Fn { .. }) {
                    Some(format!("[{},{}]", esc(a.name().as_str()), esc(&cx.key(a.def_id))))
                } else {
                    None
                }
            }));
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"head\":{},\"targs\":{},\"derived\":{},\"fns\":{}}}",
                esc(&cx.key(*tr)),
                esc(&cx.tystr(st)),
                esc(&cx.tyhead(st)),
                list(
                    tcx.impl_trait_ref(im.to_def_id())
                        .skip_binder()
                        .args
                        .types()
                        .skip(1)
                        .map(|t| esc(&cx.tyhead(t)))
                ),
                tcx.is_automatically_derived(im.to_def_id()),
                ms
            ));
        }
    }
    let json = format!(
        "{{\"crate\":{},\"bin\":{},\"bodies\":[\n{}\n],\"adts\":[\n{}\n],\"impls\":[\n{}\n]}}\n",
        esc(tcx.crate_name(LOCAL_CRATE).as_str()),
        is_bin,
        items.join(",\n"),
        adt_items.join(",\n"),
        impls.join(",\n")
    );
    let name = format!(
        "{}{}.json",
        tcx.crate_name(LOCAL_CRATE),
        if is_bin { "_bin" } else { "" }
    );
    let tmp = out.join(format!(".{}.{}", name, std::process::id()));
    std::fs::write(&tmp, json).expect("write facts");
    std::fs::rename(&tmp, out.join(name)).expect("publish facts");
}

struct Cb {
    out: Option<std::path::PathBuf>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            let is_bin = tcx
                .crate_types()
                .iter()
                .any(|t| *t == rustc_structures::CrateType::Executable);
            dump_crate(tcx, is_bin, out);
        }
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc to stand in for
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_probe = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV");
    let out = if is_probe { None } else { std::env::var_os("MIRFACTS_OUT").map(Into::into) };
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
