// orofacts: a rustc driver that writes, for each workspace crate, the resolved
// program (pre-borrowck MIR with resolved callees, types, closures, coroutines,
// ADTs with attributes, trait impls) as JSON lines. No rule lives here.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

fn crate_name(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.crate_name(d.krate).to_string()
}

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", crate_name(tcx, d), tcx.def_path(d).to_string_no_crate_verbose())
}

macro_rules! named {
    ($e:expr) => {
        ty::print::with_resolve_crate_name!(ty::print::with_no_visible_paths!(
            ty::print::with_no_trimmed_paths!($e)
        ))
    };
}

fn pname(tcx: TyCtxt<'_>, d: DefId) -> String {
    named!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let mut s = named!(t.to_string());
        if s.len() > 600 {
            let mut e = 600;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            s.truncate(e);
        }
        let i = self.tys.len();
        self.tys.push(s);
        self.tymap.insert(t, i);
        i
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        // outermost macro name
        let mut mac = String::new();
        let mut cur = sp;
        while cur.from_expansion() {
            let d = cur.ctxt().outer_expn_data();
            if let rustc_span::ExpnKind::Macro(_, name) = d.kind {
                mac = name.to_string();
            } else if let rustc_span::ExpnKind::Desugaring(k) = d.kind {
                if mac.is_empty() {
                    mac = format!("#{:?}", k);
                }
            }
            cur = d.call_site;
        }
        let cs = sp.source_callsite();
        let loc = sm.lookup_char_pos(cs.lo());
        if mac.is_empty() {
            format!("{}", loc.line)
        } else {
            format!("[{},{}]", loc.line, esc(&mac))
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut nm = format!("{}", f.as_usize());
                    if let ty::Adt(adt, _) = pty.ty.kind() {
                        let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if v.as_usize() < adt.variants().len() {
                            let vd = adt.variant(v);
                            if f.as_usize() < vd.fields.len() {
                                nm = format!("{}#{}", vd.fields[f].name, pname(tcx, adt.did()));
                            }
                        }
                    }
                    let _ = write!(o, ",{}", esc(&format!(".{}", nm)));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",\"[{}]\"", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",\"[c{}{}]\"", if from_end { "-" } else { "" }, offset);
                }
                ProjectionElem::Subslice { .. } => o.push_str(",\"[..]\""),
                ProjectionElem::Downcast(s, v) => {
                    let n = match pty.ty.kind() {
                        ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                        _ => s.map(|s| s.to_string()).unwrap_or_else(|| format!("{}", v.as_usize())),
                    };
                    let _ = write!(o, ",{}", esc(&format!("@{}", n)));
                }
                _ => o.push_str(",\"?\""),
            }
            pty = pty.projection_ty(tcx, el);
        }
        o.push(']');
        o
    }

    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"d\":{},\"di\":{}", esc(&pname(tcx, d)), esc(&uid(tcx, d)));
        let eargs = tcx.erase_and_anonymize_regions(args);
        let norm = tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(eargs))
            .unwrap_or(eargs);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, norm) {
                let rd = inst.def_id();
                if rd != d {
                    let _ = write!(o, ",\"r\":{},\"ri\":{}", esc(&pname(tcx, rd)), esc(&uid(tcx, rd)));
                }
                match inst.def {
                    ty::InstanceKind::Item(_) => {}
                    ty::InstanceKind::Virtual(..) => o.push_str(",\"k\":\"virt\""),
                    _ => o.push_str(",\"k\":\"shim\""),
                }
            } else {
                o.push_str(",\"k\":\"unres\"");
            }
        }
        let tys: Vec<usize> = norm.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t)).collect();
        let _ = write!(o, ",\"g\":{:?}", tys);
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&pname(tcx, t)));
        }
        o.push('}');
        o
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = format!("[\"k\",{{\"t\":{}", ti);
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
                let f = self.fnref(env, *d, args);
                let _ = write!(o, ",\"fn\":{}", f);
            }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"clo\":{}", esc(&uid(tcx, *d)));
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"def\":{}", esc(&pname(tcx, u.def)));
        }
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_param()
        };
        let is_scalar = t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point();
        let is_str = match t.kind() {
            ty::Ref(_, i, _) => {
                i.is_str()
                    || matches!(i.kind(), ty::Slice(e) if *e == tcx.types.u8)
                    || matches!(i.kind(), ty::Array(e, _) if *e == tcx.types.u8)
            }
            _ => false,
        };
        // newtypes of integers and pattern types: the number they hold
        let is_wrap = !is_scalar && !is_str && match t.kind() {
            ty::Pat(..) => true,
            ty::Adt(a, _) => a.is_struct(),
            _ => false,
        };
        if is_wrap && !has_param {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                if let ConstValue::Scalar(mir::interpret::Scalar::Int(si)) = v {
                    let _ = write!(o, ",\"v\":{}", si.to_bits(si.size()));
                }
            }
        }
        if (is_scalar || is_str) && !has_param {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                if is_scalar {
                    if let Some(si) = v.try_to_scalar_int() {
                        if t.is_bool() {
                            let _ = write!(o, ",\"v\":{}", if si.try_to_bool().unwrap_or(false) { "true" } else { "false" });
                        } else if t.is_signed() {
                            let _ = write!(o, ",\"v\":{}", si.to_int(si.size()));
                        } else if t.is_char() {
                            let ch = char::from_u32(si.to_bits(si.size()) as u32).unwrap_or('?');
                            let _ = write!(o, ",\"v\":{}", esc(&ch.to_string()));
                        } else if t.is_floating_point() {
                            let _ = write!(o, ",\"v\":\"f{}\"", si.to_bits(si.size()));
                        } else {
                            let _ = write!(o, ",\"v\":{}", si.to_bits(si.size()));
                        }
                    }
                } else {
                    let bytes: Option<Vec<u8>> = match v {
                        ConstValue::Slice { .. } => v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec()),
                        ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                            let (prov, off) = p.prov_and_relative_offset();
                            match tcx.try_get_global_alloc(prov.alloc_id()) {
                                Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                                    let a = a.inner();
                                    let n = match t.kind() {
                                        ty::Ref(_, i, _) => match i.kind() {
                                            ty::Array(_, n) => n.try_to_target_usize(tcx).unwrap_or(0) as usize,
                                            _ => 0,
                                        },
                                        _ => 0,
                                    };
                                    let s = off.bytes_usize();
                                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(s..(s + n).min(a.len())).to_vec())
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    };
                    if let Some(b) = bytes {
                        let _ = write!(o, ",\"v\":{}", esc(&String::from_utf8_lossy(&b)));
                    }
                }
            }
        }
        o.push_str("}]");
        o
    }

    fn op(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            Operand::Constant(c) => self.konst(env, c),
            _ => "[\"k\",{\"t\":0}]".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(env, body, o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.op(env, body, o)),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { .. } => "m",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(body, *p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&pname(tcx, *d))),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"r\",{}]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(env, body, o), ti)
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(env, body, &ops.0), self.op(env, body, &ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(env, body, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let mut vs = String::new();
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        for (i, d) in adt.discriminants(tcx) {
                            if !vs.is_empty() {
                                vs.push(',');
                            }
                            let _ = write!(vs, "\"{}\":{}", d.val, esc(adt.variant(i).name.as_str()));
                        }
                    }
                }
                let ti = self.ty(t);
                format!("[\"discr\",{},{},{{{}}}]", self.place(body, *p), ti, vs)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, *p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(env, body, o)).collect();
                let head = match &**k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = tcx.adt_def(*d);
                        let vd = adt.variant(*v);
                        let fs: Vec<String> = vd.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"adt\":{},\"v\":{},\"f\":[{}]}}",
                            esc(&pname(tcx, *d)),
                            esc(vd.name.as_str()),
                            fs.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("{{\"clo\":{}}}", esc(&uid(tcx, *d)))
                    }
                    AggregateKind::RawPtr(..) => "\"rawptr\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", head, os.join(","))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"m\",{}]", self.place(body, *p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(env, body, o)),
            #[allow(unreachable_patterns)]
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, did: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let d = did.to_def_id();
        let env = TypingEnv::post_analysis(tcx, d);
        let kind = tcx.def_kind(d);
        let sm = tcx.sess.source_map();
        let sp = tcx.def_span(d);
        let cs = sp.source_callsite();
        let lo = sm.lookup_char_pos(cs.lo());
        let bsp = body.span.source_callsite();
        let hi = sm.lookup_char_pos(bsp.hi());
        let file = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        let mut o = String::new();
        let parent = tcx.opt_parent(d).map(|p| uid(tcx, p)).unwrap_or_default();
        let _ = write!(
            o,
            "{{\"T\":\"fn\",\"id\":{},\"name\":{},\"kind\":{},\"parent\":{},\"file\":{},\"line\":{},\"eline\":{},\"exp\":{}",
            esc(&uid(tcx, d)),
            esc(&pname(tcx, d)),
            esc(&format!("{:?}", kind)),
            esc(&parent),
            esc(&file),
            lo.line,
            hi.line,
            sp.from_expansion()
        );
        if let Some(ck) = tcx.coroutine_kind(d) {
            let _ = write!(o, ",\"cor\":{}", esc(&format!("{:?}", ck)));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(d).is_public());
            let ev = tcx.effective_visibilities(()).is_reachable(did);
            let _ = write!(o, ",\"reach\":{}", ev);
        }
        if let Some(p) = tcx.opt_parent(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let sti = self.ty(st);
                let _ = write!(o, ",\"self\":{}", sti);
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", esc(&pname(tcx, tr.def_id)));
                    let targs: Vec<usize> = tr.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t)).collect();
                    let _ = write!(o, ",\"targs\":{:?}", targs);
                    if tcx.is_automatically_derived(p) {
                        o.push_str(",\"derived\":true");
                    }
                }
                if let Some(ti) = tcx.trait_item_of(d) {
                    let _ = write!(o, ",\"timpl\":{}", esc(&uid(tcx, ti)));
                }
            } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                let _ = write!(o, ",\"intrait\":{}", esc(&pname(tcx, p)));
            }
        }
        let _ = write!(o, ",\"argc\":{}", body.arg_count);
        // locals
        o.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let ti = self.ty(l.ty);
            let _ = write!(o, "{}", ti);
        }
        o.push_str("],\"vars\":[");
        let mut first = true;
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let ps = self.place(body, p);
                let _ = write!(o, "[{},{}]", esc(v.name.as_str()), ps);
            }
        }
        o.push_str("],\"bbs\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(body, a.0);
                        let r = self.rvalue(env, body, &a.1);
                        format!("[{},{},{}]", p, r, self.span(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        format!("[{},[\"setd\",{}],{}]", p, variant_index.as_usize(), self.span(st.source_info.span))
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(env, body, discr);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{}]", d, ts.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, *place);
                    format!("[\"drop\",{},{}]", p, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = if let ty::FnDef(d, ga) = func.ty(&body.local_decls, tcx).kind() {
                        let ga = ga.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
                        self.fnref(env, *d, ga)
                    } else {
                        format!("{{\"ind\":{}}}", self.op(env, body, func))
                    };
                    let a: Vec<String> = args.iter().map(|a| self.op(env, body, &a.node)).collect();
                    let dst = self.place(body, *destination);
                    let tg = target.map(|t| t.as_usize() as i64).unwrap_or(-1);
                    format!("[\"call\",{},[{}],{},{}]", f, a.join(","), dst, tg)
                }
                TerminatorKind::TailCall { .. } => "[\"unreach\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(env, body, cond);
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(b, ..) => match b {
                            BinOp::Sub => "overflow-sub",
                            BinOp::Add => "overflow-add",
                            BinOp::Mul => "overflow-mul",
                            _ => "overflow",
                        },
                        AssertKind::OverflowNeg(_) => "overflow-neg",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", c, expected, k, target.as_usize())
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.op(env, body, value);
                    let ra = self.place(body, *resume_arg);
                    format!("[\"yield\",{},{},{}]", v, resume.as_usize(), ra)
                }
                TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                _ => "[\"unreach\"]".into(),
            };
            o.push_str(&s);
            let _ = write!(o, ",\"l\":{}", self.span(t.source_info.span));
            if bb.is_cleanup {
                o.push_str(",\"u\":1");
            }
            o.push('}');
        }
        o.push_str("]}");
        o
    }

    fn attrs(&self, d: LocalDefId) -> String {
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let hid = tcx.local_def_id_to_hir_id(d);
        let mut v = vec![];
        for a in tcx.hir_attrs(hid) {
            if let rustc_attr_ir::Attribute::DeriveHelper(it) | rustc_attr_ir::Attribute::Tool(it) = a {
                if let Ok(s) = sm.span_to_snippet(it.span) {
                    v.push(esc(&s));
                }
            }
        }
        format!("[{}]", v.join(","))
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new() };
        let _ = cx.ty(tcx.types.unit);
        let mut bodies = vec![];
        for did in tcx.hir_body_owners() {
            let k = tcx.def_kind(did);
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. })
                || tcx.is_coroutine(did.to_def_id())
            {
                let b = tcx.mir_built(did).borrow().clone();
                bodies.push((did, b));
            }
        }
        let cname = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut lines = vec![];
        for (did, b) in &bodies {
            lines.push(cx.body(*did, b));
        }
        // ADTs and impls
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(id);
                    let mut vs = vec![];
                    for v in adt.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ti = cx.ty(t);
                            let at = f.did.as_local().map(|l| cx.attrs(l)).unwrap_or("[]".into());
                            fs.push(format!("[{},{},{},{}]", esc(f.name.as_str()), ti, at, f.vis.is_public()));
                        }
                        let at = match v.def_id.as_local() {
                            Some(l) if adt.is_enum() => cx.attrs(l),
                            _ => "[]".into(),
                        };
                        vs.push(format!("{{\"n\":{},\"f\":[{}],\"a\":{}}}", esc(v.name.as_str()), fs.join(","), at));
                    }
                    let k = if adt.is_enum() { "enum" } else { "struct" };
                    let sm = tcx.sess.source_map();
                    let lo = sm.lookup_char_pos(tcx.def_span(id).source_callsite().lo());
                    lines.push(format!(
                        "{{\"T\":\"adt\",\"name\":{},\"kind\":\"{}\",\"pub\":{},\"attrs\":{},\"line\":{},\"file\":{},\"vs\":[{}]}}",
                        esc(&pname(tcx, id.to_def_id())),
                        k,
                        tcx.visibility(id).is_public(),
                        cx.attrs(id),
                        lo.line,
                        esc(&lo.file.name.prefer_local_unconditionally().to_string()),
                        vs.join(",")
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let mut s = format!("{{\"T\":\"impl\",\"id\":{},\"self\":{}", esc(&uid(tcx, id.to_def_id())), sti);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"trait\":{},\"tstr\":{}", esc(&pname(tcx, tr.def_id)), esc(&named!(tr.to_string())));
                        let _ = write!(s, ",\"derived\":{}", tcx.is_automatically_derived(id.to_def_id()));
                    }
                    let items: Vec<String> = tcx
                        .associated_items(id.to_def_id())
                        .in_definition_order()
                        .map(|i| format!("[{},{}]", esc(&i.opt_name().map(|n| n.to_string()).unwrap_or_default()), esc(&uid(tcx, i.def_id))))
                        .collect();
                    let _ = write!(s, ",\"items\":[{}]}}", items.join(","));
                    lines.push(s);
                }
                _ => {}
            }
        }
        lines.push(format!(
            "{{\"T\":\"tys\",\"tys\":[{}]}}",
            cx.tys.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
        ));
        lines.push(format!("{{\"T\":\"end\",\"crate\":{},\"bodies\":{}}}", esc(&cname), bodies.len()));
        let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
        let path = format!("{}/{}{}.jsonl", self.out, cname, if is_bin { ".bin" } else { "" });
        let tmp = format!("{}.tmp{}", path, std::process::id());
        let mut f = std::fs::File::create(&tmp).expect("create facts file");
        f.write_all(lines.join("\n").as_bytes()).expect("write facts");
        drop(f);
        std::fs::rename(&tmp, &path).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper protocol: argv[1] is the real rustc
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let out = std::env::var("OROFACTS_OUT").unwrap_or_default();
    let crate_is = |n: &str| args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == n);
    let skip = out.is_empty() || crate_is("build_script_build") || !args.iter().any(|a| a == "--crate-name") || crate_is("___");
    rustc_driver_impl::catch_with_exit_code(|| {
        if skip {
            rustc_driver_impl::compiler_entrypoint(&args, &mut NoCb)
        } else {
            rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out })
        }
    })
}

struct NoCb;
impl Callbacks for NoCb {}
