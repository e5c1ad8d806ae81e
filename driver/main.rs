//! MIR extraction driver: dumps the type-checked, drop-elaborated MIR of the
//! crate named by `SAV_CRATE`, with every call resolved to its instance, as
//! one JSON document. Everything is hand-serialised; no dependencies.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_index::IndexVec;
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write;

struct J(String);
fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

/// `unsafe { .. }` blocks written in the crate (not those of macros defined elsewhere)
struct Unsafes<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafes<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let foreign = b.span.from_expansion()
                && b.span.ctxt().outer_expn_data().macro_def_id.map(|m| !m.is_local()).unwrap_or(true);
            if !foreign {
                self.found.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    adt_queue: VecDeque<DefId>,
    bodies: Vec<String>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String)>,
    cur: Option<&'tcx IndexVec<Local, LocalDecl<'tcx>>>,
}

const EXT_MODULES: &[&str] = &[
    "option", "result", "ops", "convert", "cmp", "mem", "bool", "default", "tuple", "borrow",
];

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, lo.line)
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, i: &Instance<'tcx>) -> String {
        let kind = match i.def {
            InstanceKind::Item(_) => "",
            InstanceKind::Intrinsic(_) => "intrinsic ",
            InstanceKind::Virtual(..) => "virtual ",
            InstanceKind::Shim(_) => "shim ",
            _ => "other ",
        };
        let p = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        let extra = match i.def {
            InstanceKind::Shim(s) => with_no_trimmed_paths!(format!("{:?} ", s)),
            _ => String::new(),
        };
        // disambiguate closures and homonymous impl blocks by def path
        format!("{kind}{extra}{p}#{:?}", i.def_id().index.as_u32())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, id);
        let s = with_no_trimmed_paths!(t.to_string());
        let body = match t.kind() {
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), i)
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), i)
            }
            ty::Adt(def, args) => {
                self.adt_queue.push_back(def.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let c: Vec<String> = args
                    .consts()
                    .map(|c| q(&with_no_trimmed_paths!(c.to_string())))
                    .collect();
                format!(
                    "\"k\":\"adt\",\"p\":{},\"a\":{},\"c\":{}",
                    q(&self.path(def.did())),
                    arr(a),
                    arr(c)
                )
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(a))
            }
            ty::Array(e, n) => {
                let i = self.ty(*e);
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", i, n)
            }
            ty::Slice(e) => {
                let i = self.ty(*e);
                format!("\"k\":\"slice\",\"t\":{}", i)
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                let k = self.key(&inst);
                let kind = args.as_closure().kind_ty().to_opt_closure_kind();
                format!(
                    "\"k\":\"closure\",\"key\":{},\"ck\":{}",
                    q(&k),
                    q(&format!("{:?}", kind))
                )
            }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"p\":{}", q(&self.path(*d))),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Param(p) => format!("\"k\":\"param\",\"p\":{}", q(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            ty::Int(_) => "\"k\":\"int\"".into(),
            ty::Uint(_) => "\"k\":\"uint\"".into(),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        use rustc_middle::ty::TypeVisitableExt;
        let hp = t.has_param() || t.has_aliases();
        let sz = if hp || t.has_escaping_bound_vars() {
            "null".to_string()
        } else {
            let env = TypingEnv::fully_monomorphized();
            match self.tcx.layout_of(env.as_query_input(self.tcx.erase_and_anonymize_regions(t))) {
                Ok(l) if l.is_sized() => l.size.bytes().to_string(),
                _ => "null".to_string(),
            }
        };
        self.types[id] = format!("{{{},\"s\":{},\"hp\":{},\"sz\":{}}}", body, q(&s), hp, sz);
        id
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, String::new());
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let discrs: HashMap<_, _> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
            HashMap::new()
        };
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let fs = arr(v.fields.iter().map(|f| {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                format!(
                    "[{},{},{}]",
                    q(f.name.as_str()),
                    q(&with_no_trimmed_paths!(t.to_string())),
                    q(&format!("{:?}", f.vis))
                )
            }));
            let dv = discrs
                .get(&vi)
                .map(|x| format!("\"{}\"", x))
                .unwrap_or("null".into());
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                q(v.name.as_str()),
                dv,
                fs
            ));
        }
        let s = format!(
            "{}:{{\"kind\":\"{}\",\"local\":{},\"v\":{}}}",
            q(&self.path(d)),
            kind,
            d.is_local(),
            arr(vs)
        );
        self.adts.insert(d, s);
    }

    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_constructor(d) {
                    return false;
                }
                if !tcx.is_mir_available(d) {
                    return false;
                }
                if tcx.is_closure_like(d) || d.is_local() {
                    return true;
                }
                let krate = tcx.crate_name(d.krate);
                let k = krate.as_str();
                if k == "core" || k == "alloc" || k == "std" {
                    let dp = tcx.def_path(d);
                    if let Some(f) = dp.data.first() {
                        let m = f.data.to_string();
                        return EXT_MODULES.contains(&m.as_str());
                    }
                    return false;
                }
                false
            }
            _ => false,
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let mut out = format!(
            "{{\"p\":{},\"full\":{},\"a\":{},\"local\":{}",
            q(&p),
            q(&full),
            arr(targs),
            d.is_local()
        );
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(out, ",\"trait\":{}", q(&self.path(t)));
        }
        let _ = write!(out, ",\"name\":{}", q(tcx.item_name(d).as_str()));
        if tcx.is_constructor(d) {
            let parent = tcx.parent(d);
            let (adt, vidx) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.parent(parent);
                    let def = tcx.adt_def(adt);
                    (adt, def.variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            self.adt_queue.push_back(adt);
            let _ = write!(out, ",\"ctor\":[{},{}]", q(&self.path(adt)), vidx);
        } else {
            let sig = tcx.fn_sig(d).skip_binder();
            let _ = write!(out, ",\"unsafe\":{}", sig.safety().is_unsafe());
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                    _ => "other",
                };
                let k = self.key(&inst);
                let rd = inst.def_id();
                let derived = tcx
                    .impl_of_assoc(rd)
                    .map(|i| tcx.is_automatically_derived(i))
                    .unwrap_or(false);
                let wants = self.want_body(&inst);
                let _ = write!(
                    out,
                    ",\"kind\":\"{}\",\"key\":{},\"rp\":{},\"rlocal\":{},\"derived\":{},\"body\":{},\"krate\":{}",
                    kind,
                    q(&k),
                    q(&self.path(rd)),
                    rd.is_local(),
                    derived,
                    wants,
                    q(tcx.crate_name(rd.krate).as_str())
                );
                if wants {
                    self.queue.push_back((inst, env, k));
                }
            } else {
                let _ = write!(out, ",\"kind\":\"unresolved\"");
            }
        }
        out.push('}');
        out
    }

    fn scalar_at(&self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<ty::ScalarInt> {
        let tcx = self.tcx;
        if let ConstValue::Indirect { alloc_id, offset } = v {
            let sz = tcx.layout_of(env.as_query_input(t)).ok()?.size;
            if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                if let Ok(Scalar::Int(i)) = a.inner().read_scalar(
                    &tcx,
                    rustc_middle::mir::interpret::alloc_range(offset, sz),
                    false,
                ) {
                    return Some(i);
                }
            }
        }
        None
    }

    fn read_const(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"k\":\"deep\"}".into();
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sc = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => Some(i),
                    ConstValue::Indirect { .. } => {
                        self.scalar_at(v, t, env)
                    }
                    _ => None,
                };
                if let Some(i) = sc {
                    let bits = i.to_bits(i.size());
                    let s = match t.kind() {
                        ty::Int(_) => i.size().sign_extend(bits).to_string(),
                        _ => bits.to_string(),
                    };
                    return format!("{{\"k\":\"int\",\"v\":\"{}\"}}", s);
                }
                "{\"k\":\"unk\"}".into()
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.skip_binder(), env);
                format!("{{\"k\":\"fn\",\"c\":{}}}", c)
            }
            ty::Closure(_, _) => {
                let i = self.ty(t);
                self.queue_closure(t, env);
                format!("{{\"k\":\"closure\",\"t\":{}}}", i)
            }
            ty::Ref(_, inner, _) => {
                // fat pointers to str / slices
                if inner.is_str() || inner.is_slice() {
                    let (aid, off, len) = match v {
                        ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                        ConstValue::Indirect { alloc_id, offset } => {
                            let a = match tcx.global_alloc(alloc_id) {
                                GlobalAlloc::Memory(a) => a,
                                _ => return "{\"k\":\"unk\"}".into(),
                            };
                            let ps = tcx.data_layout.pointer_size();
                            let r = |o, prov| {
                                a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(o, ps), prov)
                            };
                            let p = match r(offset, true) {
                                Ok(Scalar::Ptr(p, _)) => p,
                                _ => return "{\"k\":\"unk\"}".into(),
                            };
                            let (prov, o) = p.into_raw_parts();
                            let l = match r(offset + ps, false) {
                                Ok(Scalar::Int(i)) => i.to_bits(i.size()) as u64,
                                _ => return "{\"k\":\"unk\"}".into(),
                            };
                            (prov.alloc_id(), o.bytes(), l)
                        }
                        _ => return "{\"k\":\"unk\"}".into(),
                    };
                    let a = match tcx.global_alloc(aid) {
                        GlobalAlloc::Memory(a) => a,
                        _ => return "{\"k\":\"unk\"}".into(),
                    };
                    if inner.is_str() {
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                            off as usize..(off + len) as usize,
                        );
                        return format!("{{\"k\":\"str\",\"v\":{}}}", q(&String::from_utf8_lossy(b)));
                    }
                    let e = inner.builtin_index().unwrap();
                    let esz = match tcx.layout_of(env.as_query_input(e)) {
                        Ok(l) => l.size.bytes(),
                        _ => return "{\"k\":\"unk\"}".into(),
                    };
                    let mut es = vec![];
                    if len > 4096 {
                        return "{\"k\":\"unk\"}".into();
                    }
                    for i in 0..len {
                        let cv = ConstValue::Indirect {
                            alloc_id: aid,
                            offset: rustc_abi::Size::from_bytes(off + i * esz),
                        };
                        es.push(self.read_const(cv, e, env, depth + 1));
                    }
                    return format!("{{\"k\":\"arr\",\"e\":{}}}", arr(es));
                }
                // thin reference
                let p = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => {
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(a) => match a.inner().read_scalar(
                                &tcx,
                                rustc_middle::mir::interpret::alloc_range(offset, tcx.data_layout.pointer_size()),
                                true,
                            ) {
                                Ok(Scalar::Ptr(p, _)) => Some(p),
                                _ => None,
                            },
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(p) = p {
                    let (prov, off) = p.into_raw_parts();
                    if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        return format!("{{\"k\":\"static\",\"p\":{}}}", q(&self.path(d)));
                    }
                    if let Some(GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        let cv = ConstValue::Indirect {
                            alloc_id: prov.alloc_id(),
                            offset: off,
                        };
                        return self.read_const(cv, *inner, env, depth + 1);
                    }
                }
                "{\"k\":\"unk\"}".into()
            }
            ty::Array(e, _) | ty::Slice(e) => {
                let n = match t.kind() {
                    ty::Array(_, n) => n.try_to_target_usize(tcx),
                    _ => None,
                };
                if let (Some(n), ConstValue::Indirect { alloc_id, offset }) = (n, v) {
                    let esz = match tcx.layout_of(env.as_query_input(*e)) {
                        Ok(l) => l.size,
                        _ => return "{\"k\":\"unk\"}".into(),
                    };
                    if n <= 4096 {
                        let mut es = vec![];
                        for i in 0..n {
                            let cv = ConstValue::Indirect {
                                alloc_id,
                                offset: offset + esz * i,
                            };
                            es.push(self.read_const(cv, *e, env, depth + 1));
                        }
                        return format!("{{\"k\":\"arr\",\"e\":{}}}", arr(es));
                    }
                }
                if let Some(0) = n {
                    return "{\"k\":\"arr\",\"e\":[]}".into();
                }
                self.destructure(v, t, env, depth)
            }
            ty::Tuple(ts) if ts.is_empty() => "{\"k\":\"tuple\",\"e\":[]}".into(),
            ty::Tuple(_) | ty::Adt(..) => self.destructure(v, t, env, depth),
            _ => "{\"k\":\"unk\"}".into(),
        }
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        use rustc_middle::ty::TypeVisitableExt;
        if t.has_param() || t.has_aliases() {
            return "{\"k\":\"unk\"}".into();
        }
        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
            let mut es = vec![];
            for (cv, ct) in d.fields.iter() {
                es.push(self.read_const(*cv, *ct, env, depth + 1));
            }
            match t.kind() {
                ty::Adt(def, _) => {
                    self.adt_queue.push_back(def.did());
                    return format!(
                        "{{\"k\":\"adt\",\"p\":{},\"v\":{},\"e\":{}}}",
                        q(&self.path(def.did())),
                        d.variant.map(|x| x.as_usize()).unwrap_or(0),
                        arr(es)
                    );
                }
                ty::Tuple(_) => return format!("{{\"k\":\"tuple\",\"e\":{}}}", arr(es)),
                _ => return format!("{{\"k\":\"arr\",\"e\":{}}}", arr(es)),
            }
        }
        "{\"k\":\"unk\"}".into()
    }

    fn queue_closure(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) {
        if let ty::Closure(d, args) = t.kind() {
            let inst = Instance::new_raw(*d, args);
            let k = self.key(&inst);
            self.queue.push_back((inst, env, k));
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        match t.kind() {
            ty::FnDef(d, args) => {
                let cc = self.callee(*d, args.skip_binder(), env);
                return format!("{{\"c\":{},\"t\":{}}}", format!("{{\"k\":\"fn\",\"c\":{}}}", cc), ti);
            }
            _ => {}
        }
        let named = match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if u.promoted.is_some() {
                    String::new()
                } else {
                    with_no_trimmed_paths!(tcx.def_path_str_with_args(u.def, u.args))
                }
            }
            mir::Const::Ty(_, c) => with_no_trimmed_paths!(c.to_string()),
            _ => String::new(),
        };
        let v = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.read_const(v, t, env, 0),
            Err(_) => "{\"k\":\"uneval\"}".into(),
        };
        if named.is_empty() {
            format!("{{\"c\":{},\"t\":{}}}", v, ti)
        } else {
            format!("{{\"c\":{},\"t\":{},\"n\":{}}}", v, ti, q(&named))
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let i = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), i)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"p\":{},\"mv\":1}}", self.place(p)),
            Operand::Constant(c) => self.konst(c, env),
            _ => "{\"rc\":1}".into(),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, key: String) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let b: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, raw.clone()),
        );
        // the body lives as long as the arena: one short-lived compiler process
        let b: &'tcx Body<'tcx> = Box::leak(Box::new(b));
        self.cur = Some(&b.local_decls);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(i, l)| {
                let t = self.ty(l.ty);
                match names.get(&i.as_usize()) {
                    Some(n) => format!("[{},{}]", t, q(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        let mut bbs = vec![];
        for (_bi, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in bb.statements.iter() {
                let sp = self.span(s.source_info.span);
                let line = sp.rsplit(':').next().unwrap_or("0").to_string();
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let ps = self.place(p);
                        let rs = self.rvalue(r, env);
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(place);
                        st.push(format!("[\"sd\",{},{},{}]", ps, variant_index.as_usize(), line));
                    }
                    StatementKind::Intrinsic(_) => st.push(format!("[\"intr\",{}]", line)),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, env);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let ti = self.ty(dt);
                    let vs = arr(targets.iter().map(|(v, t)| {
                        let v = if let ty::Int(_) = dt.kind() {
                            let sz = tcx.layout_of(env.as_query_input(dt)).unwrap().size;
                            sz.sign_extend(v).to_string()
                        } else {
                            v.to_string()
                        };
                        format!("[\"{}\",{}]", v, t.as_usize())
                    }));
                    format!(
                        "\"k\":\"switch\",\"o\":{},\"t\":{},\"v\":{},\"else\":{}",
                        o,
                        ti,
                        vs,
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "\"k\":\"ret\"".into(),
                TerminatorKind::Unreachable => "\"k\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("\"k\":\"drop\",\"p\":{},\"to\":{}", p, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let dst = self.place(destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dti = self.ty(dt);
                    format!(
                        "\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"dt\":{},\"to\":{}",
                        f,
                        arr(a),
                        dst,
                        dti,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, env),
                            self.operand(index, env)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",\"{:?}\",{},{}]",
                            op,
                            self.operand(a, env),
                            self.operand(b, env)
                        ),
                        AssertKind::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a, env)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a, env)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a, env)),
                        _ => "[\"other\"]".into(),
                    };
                    format!(
                        "\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"to\":{}",
                        c,
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("\"k\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"k\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"k\":\"unwind\"".into(),
                _ => "\"k\":\"other\"".into(),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{{{},\"sp\":{}}}}}", arr(st), ts, q(&sp)));
        }
        let vis = if matches!(tcx.def_kind(d), DefKind::Closure) {
            "closure".to_string()
        } else {
            format!("{:?}", tcx.visibility(d))
        };
        let root_vis = if d.is_local() && !tcx.is_closure_like(d) {
            tcx.effective_visibilities(()).is_reachable(d.expect_local())
        } else {
            false
        };
        let derived = tcx
            .impl_of_assoc(d)
            .map(|i| tcx.is_automatically_derived(i))
            .unwrap_or(false);
        let mut bounds = vec![];
        for c in tcx.param_env(d).caller_bounds() {
            if let Some(t) = c.as_trait_clause() {
                let t = t.skip_binder();
                if let ty::Param(p) = t.self_ty().kind() {
                    bounds.push(format!(
                        "[{},{}]",
                        q(p.name.as_str()),
                        q(&self.path(t.def_id()))
                    ));
                }
            }
        }
        let s = format!(
            "{{\"key\":{},\"p\":{},\"local\":{},\"krate\":{},\"span\":{},\"bounds\":{},\"argc\":{},\"vis\":{},\"reach\":{},\"derived\":{},\"closure\":{},\"spread\":{},\"locals\":{},\"bbs\":{}}}",
            q(&key),
            q(&self.path(d)),
            d.is_local(),
            q(tcx.crate_name(d.krate).as_str()),
            q(&self.span(tcx.def_span(d))),
            arr(bounds),
            b.arg_count,
            q(&vis),
            root_vis,
            derived,
            tcx.is_closure_like(d),
            b.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1),
            arr(locals),
            arr(bbs)
        );
        self.bodies.push(s);
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, env), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Fake(_) => "fake",
                    _ => "shared",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", q(&format!("{:?}", k)), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", q(&ks), self.operand(o, env), ti)
            }
            Rvalue::BinaryOp(op, bx) => {
                let (a, c) = &**bx;
                format!(
                    "[\"bin\",\"{:?}\",{},{}]",
                    op,
                    self.operand(a, env),
                    self.operand(c, env)
                )
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.cur.unwrap(), self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let a: Vec<String> = ops.iter().map(|x| self.operand(x, env)).collect();
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",[\"array\"],{}]", arr(a)),
                    AggregateKind::Tuple => format!("[\"agg\",[\"tuple\"],{}]", arr(a)),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt_queue.push_back(*d);
                        format!(
                            "[\"agg\",[\"adt\",{},{},{}],{}]",
                            q(&self.path(*d)),
                            v.as_usize(),
                            f.map(|x| x.as_usize() as i64).unwrap_or(-1),
                            arr(a)
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let k = self.key(&inst);
                        self.queue.push_back((inst, env, k.clone()));
                        format!("[\"agg\",[\"closure\",{}],{}]", q(&k), arr(a))
                    }
                    _ => "[\"other\"]".into(),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",\"{}\",{}]", if m.is_mut() { "mut" } else { "shared" }, self.place(p))
            }
            _ => "[\"other\"]".into(),
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("SAV_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let out = match std::env::var("SAV_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut cx = Cx {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: HashMap::new(),
            adt_queue: VecDeque::new(),
            bodies: vec![],
            seen: HashSet::new(),
            queue: VecDeque::new(),
            cur: None,
        };
        let mut roots = vec![];
        let mut items = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Closure) {
                if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
                    let mut u = Unsafes { tcx, found: vec![] };
                    rustc_hir::intravisit::Visitor::visit_body(&mut u, b);
                    for s in u.found {
                        items.push(format!(
                            "{{\"k\":\"unsafe\",\"p\":{},\"span\":{}}}",
                            q(&cx.path(d)),
                            q(&cx.span(s))
                        ));
                    }
                }
            }
            match k {
                DefKind::Fn | DefKind::AssocFn => {
                    // trait methods without default body have no MIR
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let env = TypingEnv::post_analysis(tcx, d);
                    let args = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(args));
                    let inst = Instance::new_raw(d, args);
                    let key = cx.key(&inst);
                    roots.push(format!(
                        "{{\"key\":{},\"p\":{},\"span\":{},\"reach\":{},\"derived\":{},\"unsafe\":{}}}",
                        q(&key),
                        q(&cx.path(d)),
                        q(&cx.span(tcx.def_span(d))),
                        tcx.effective_visibilities(()).is_reachable(ld),
                        tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false),
                        tcx.fn_sig(d).skip_binder().safety().is_unsafe()
                    ));
                    cx.queue.push_back((inst, env, key));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt_queue.push_back(d),
                DefKind::Static { mutability, .. } => items.push(format!(
                    "{{\"k\":\"static\",\"p\":{},\"mut\":{},\"freeze\":{},\"span\":{}}}",
                    q(&cx.path(d)),
                    mutability.is_mut(),
                    tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::post_analysis(tcx, d)),
                    q(&cx.span(tcx.def_span(d)))
                )),
                DefKind::Impl { of_trait } => {
                    let t = if of_trait {
                        q(&with_no_trimmed_paths!(tcx.impl_trait_ref(d).skip_binder().to_string()))
                    } else {
                        "null".into()
                    };
                    items.push(format!(
                        "{{\"k\":\"impl\",\"trait\":{},\"derived\":{},\"span\":{}}}",
                        t,
                        tcx.is_automatically_derived(d),
                        q(&cx.span(tcx.def_span(d)))
                    ));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, d);
                    use rustc_middle::ty::TypeVisitableExt;
                    let v = if tcx.generics_of(d).requires_monomorphization(tcx) || t.has_param() {
                        "{\"k\":\"unk\"}".to_string()
                    } else {
                        match tcx.const_eval_poly(d) {
                            Ok(v) => cx.read_const(v, t, env, 0),
                            Err(_) => "{\"k\":\"unk\"}".into(),
                        }
                    };
                    items.push(format!(
                        "{{\"k\":\"const\",\"p\":{},\"ty\":{},\"v\":{},\"span\":{}}}",
                        q(&cx.path(d)),
                        q(&with_no_trimmed_paths!(t.to_string())),
                        v,
                        q(&cx.span(tcx.def_span(d)))
                    ));
                }
                DefKind::ForeignMod | DefKind::GlobalAsm => items.push(format!(
                    "{{\"k\":\"foreign\",\"span\":{}}}",
                    q(&cx.span(tcx.def_span(d)))
                )),
                _ => {}
            }
        }
        while let Some((inst, env, key)) = cx.queue.pop_front() {
            if !cx.seen.insert(key.clone()) {
                continue;
            }
            cx.body(inst, env, key);
        }
        while let Some(d) = cx.adt_queue.pop_front() {
            cx.adt(d);
        }
        let ptr = tcx.data_layout.pointer_size().bits();
        let adts: Vec<String> = cx.adts.values().cloned().collect();
        let s = format!(
            "{{\"ptr\":{},\"roots\":{},\"items\":{},\"types\":{},\"adts\":{{{}}},\"bodies\":{}}}\n",
            ptr,
            arr(roots),
            arr(items),
            arr(std::mem::take(&mut cx.types)),
            adts.join(",\n"),
            format!("[{}]", cx.bodies.join(",\n"))
        );
        let _ = J(String::new()).0;
        std::fs::write(&out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
