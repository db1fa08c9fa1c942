//! Dumps the type-checked program of a crate (MIR with resolved callees, ADTs, evaluated constants)
//! as JSON. Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_type_ir;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let mut d = Dump::new(tcx, name.clone());
            let s = d.run();
            let is_test = tcx.sess.opts.test;
            let file = format!("{dir}/{name}{}.json", if is_test { ".test" } else { "" });
            let tmp = format!("{file}.tmp{}", std::process::id());
            std::fs::write(&tmp, s).unwrap();
            std::fs::rename(&tmp, &file).unwrap();
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the real rustc when used as a wrapper
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    args.push("-Coverflow-checks=off".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zub-checks=no".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    adts: BTreeMap<String, String>,
    seen_adts: HashSet<DefId>,
    adt_queue: Vec<ty::AdtDef<'tcx>>,
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>, krate: String) -> Self {
        Dump { tcx, krate, adts: BTreeMap::new(), seen_adts: HashSet::new(), adt_queue: vec![] }
    }

    fn fix(&self, s: String) -> String {
        // `crate::` prefixes are only printed for local items.
        if !s.contains("crate::") {
            return s;
        }
        let mut out = String::with_capacity(s.len() + 16);
        let b = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            if s[i..].starts_with("crate::")
                && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b':'))
            {
                out.push_str(&self.krate);
                out.push_str("::");
                i += 7;
            } else {
                let c = s[i..].chars().next().unwrap();
                out.push(c);
                i += c.len_utf8();
            }
        }
        out
    }

    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(self.tcx.def_path_str(d))));
        self.fix(s)
    }

    fn ty_str(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        // `impl Trait` parameters all print alike: give each its own name
        let tcx = self.tcx;
        let t = rustc_type_ir::TypeFoldable::fold_with(
            t,
            &mut ty::BottomUpFolder {
                tcx,
                ty_op: |t: Ty<'tcx>| match t.kind() {
                    ty::Param(p) if p.name.as_str().contains(' ') => {
                        Ty::new_param(tcx, p.index, rustc_span::Symbol::intern(&format!("Impl{}", p.index)))
                    }
                    _ => t,
                },
                lt_op: |r| r,
                ct_op: |c| c,
            },
        );
        let s = with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(t.to_string())));
        self.fix(s)
    }

    fn note_ty(&mut self, t: Ty<'tcx>) {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(d, _) = t.kind() {
                    self.note_adt(*d);
                }
            }
        }
    }

    fn note_adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.seen_adts.insert(d.did()) {
            self.adt_queue.push(d);
        }
    }

    fn drain_adts(&mut self, deep: usize) {
        for _ in 0..deep {
            let q = std::mem::take(&mut self.adt_queue);
            if q.is_empty() {
                break;
            }
            for d in q {
                self.dump_adt(d);
            }
        }
        self.adt_queue.clear();
    }

    fn dump_adt(&mut self, d: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"kind\":{},\"local\":{},\"nonexh\":{},\"repr_transparent\":{},\"variants\":[",
            esc(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" }),
            d.did().is_local(),
            d.is_variant_list_non_exhaustive(),
            d.repr().transparent()
        );
        for (i, (vi, v)) in d.variants().iter_enumerated().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let discr = if d.is_enum() { d.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
            let _ = write!(s, "{{\"name\":{},\"discr\":{},\"fields\":[", esc(v.name.as_str()), discr);
            for (j, f) in v.fields.iter().enumerate() {
                if j > 0 {
                    s.push(',');
                }
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                if d.did().is_local() {
                    self.note_ty(t);
                }
                let vis = if f.vis.is_public() { "pub" } else { "priv" };
                let _ = write!(s, "[{},{},{}]", esc(f.name.as_str()), esc(&self.ty_str(t)), esc(vis));
            }
            s.push_str("]}");
        }
        s.push_str("]}");
        let p = self.path(d.did());
        self.adts.insert(p, s);
    }

    fn scalar(&self, t: Ty<'tcx>, sc: mir::interpret::Scalar) -> String {
        let Ok(i) = sc.try_to_scalar_int() else { return "null".into() };
        match t.kind() {
            ty::Bool => if i.try_to_bool() == Ok(true) { "true".into() } else { "false".into() },
            ty::Int(_) => format!("{}", i.to_int(i.size())),
            ty::Float(ty::FloatTy::F32) => {
                let f = f32::from_bits(i.to_u32());
                format!("{{\"f\":{}}}", esc(&format!("{f:?}")))
            }
            ty::Float(ty::FloatTy::F64) => {
                let f = f64::from_bits(i.to_u64());
                format!("{{\"f\":{}}}", esc(&format!("{f:?}")))
            }
            ty::Char => format!("{{\"c\":{}}}", i.to_uint(i.size())),
            _ => format!("{}", i.to_uint(i.size())),
        }
    }

    fn const_val(&mut self, v: mir::ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match (v, t.kind()) {
            (mir::ConstValue::Scalar(s), ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char) => {
                return self.scalar(t, s);
            }
            (mir::ConstValue::ZeroSized, ty::FnDef(d, _)) => {
                return format!("{{\"fn\":{}}}", esc(&self.path(*d)));
            }
            _ => {}
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if let Ok(s) = std::str::from_utf8(b) {
                        return format!("{{\"s\":{}}}", esc(s));
                    }
                }
            }
            return "null".into();
        }
        if depth == 0 {
            return "null".into();
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) {
            if let ty::Adt(d, _) = t.kind() {
                if d.is_union() {
                    return "null".into();
                }
                self.note_adt(*d);
            }
            let has_param = rustc_middle::ty::TypeVisitableExt::has_param(&t);
            if has_param {
                return "null".into();
            }
            if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let mut s = String::new();
                match (dc.variant, t.kind()) {
                    (Some(vi), ty::Adt(d, _)) => {
                        let _ = write!(
                            s,
                            "{{\"adt\":{},\"var\":{},\"vi\":{},\"fields\":[",
                            esc(&self.path(d.did())),
                            esc(d.variant(vi).name.as_str()),
                            vi.as_u32()
                        );
                    }
                    (_, ty::Adt(d, _)) => {
                        let _ = write!(s, "{{\"adt\":{},\"var\":null,\"vi\":0,\"fields\":[", esc(&self.path(d.did())));
                    }
                    _ => {
                        s.push_str("{\"tup\":[");
                    }
                }
                for (i, (fv, ft)) in dc.fields.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    if i > 300 {
                        s.push_str("null");
                        break;
                    }
                    let x = self.const_val(*fv, *ft, depth - 1);
                    s.push_str(&x);
                }
                s.push_str("]}");
                return s;
            }
        }
        "null".into()
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut s = String::new();
        let _ = write!(s, "{{\"ty\":{}", esc(&self.ty_str(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let _ = write!(s, ",\"fn\":{}", esc(&self.path(*d)));
            let r = Instance::try_resolve(tcx, env, *d, args.no_bound_vars().unwrap());
            if let Ok(Some(i)) = r {
                let _ = write!(s, ",\"res\":{}", esc(&self.path(i.def_id())));
            }
            s.push('}');
            return s;
        }
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = write!(s, ",\"promoted\":{}", p.as_u32());
                } else {
                    let _ = write!(s, ",\"def\":{}", esc(&self.path(u.def)));
                }
            }
            _ => {}
        }
        if !rustc_middle::ty::TypeVisitableExt::has_param(&c.const_) {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                if let Some(sd) = Self::static_of(tcx, v, t) {
                    let _ = write!(s, ",\"static\":{}", esc(&self.path(sd)));
                }
                let x = self.const_val(v, t, 5);
                let _ = write!(s, ",\"v\":{x}");
            }
        } else if let mir::Const::Ty(_, ct) = c.const_ {
            let _ = write!(s, ",\"param\":{}", esc(&ct.to_string()));
        }
        s.push('}');
        s
    }

    fn static_of(tcx: TyCtxt<'tcx>, v: mir::ConstValue, _t: Ty<'tcx>) -> Option<DefId> {
        if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
            let (prov, _) = p.into_raw_parts();
            if let Some(mir::interpret::GlobalAlloc::Static(d)) =
                tcx.try_get_global_alloc(prov.alloc_id())
            {
                return Some(d);
            }
        }
        None
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        let _ = write!(s, "[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            self.note_adt(*d);
                            let v = match pt.variant_index {
                                Some(v) => d.variant(v),
                                None => {
                                    if d.is_enum() { d.variant(rustc_abi::VariantIdx::from_u32(0)) } else { d.non_enum_variant() }
                                }
                            };
                            let own = self.path(d.did());
                            format!("{}@{}", v.fields[f].name, own)
                        }
                        ty::Closure(d, _) => {
                            let names = tcx.closure_saved_names_of_captured_variables(*d);
                            format!("{}@closure", names.get(f).map(|s| s.to_string()).unwrap_or_default())
                        }
                        _ => format!("{}@tuple", f.as_u32()),
                    };
                    let _ = write!(s, ",[\"f\",{},{}]", f.as_u32(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    let _ = write!(s, ",[\"ci\",{},{},{}]", offset, from_end, min_length);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match (n, pt.ty.kind()) {
                        (Some(n), _) => n.to_string(),
                        (None, ty::Adt(d, _)) => d.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    let _ = write!(s, ",[\"d\",{},{}]", v.as_u32(), esc(&nm));
                }
                ProjectionElem::OpaqueCast(_) => s.push_str(",\"oc\""),
                ProjectionElem::PhantomDeref => s.push_str(",\"pd\""),
                ProjectionElem::UnwrapUnsafeBinder(_) => s.push_str(",\"ub\""),
            }
            pt = pt.projection_ty(tcx, e);
        }
        s.push(']');
        s
    }

    fn place_ty(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> Ty<'tcx> {
        p.ty(body, self.tcx).ty
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(c, env)),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":{\"ty\":\"bool\",\"v\":false}}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o, env)),
            Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, o, env), n)
            }
            Rvalue::Ref(_, k, p) => {
                let k = match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(body, p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", esc(&format!("{k:?}")), self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, tcx);
                self.note_ty(*t);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{k:?}")),
                    self.operand(body, o, env),
                    esc(&self.ty_str(*t)),
                    esc(&self.ty_str(from))
                )
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, tcx);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(body, &b.0, env),
                    self.operand(body, &b.1, env),
                    esc(&self.ty_str(t))
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, tcx);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(body, o, env), esc(&self.ty_str(t)))
            }
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(body, p);
                self.note_ty(t);
                let adt = match t.kind() {
                    ty::Adt(d, _) => self.path(d.did()),
                    _ => String::new(),
                };
                format!("[\"discr\",{},{}]", self.place(body, p), esc(&adt))
            }
            Rvalue::Aggregate(k, fs) => {
                let mut head = match &**k {
                    AggregateKind::Array(_) => "\"array\",null,null,null".to_string(),
                    AggregateKind::Tuple => "\"tuple\",null,null,null".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = tcx.adt_def(*d);
                        self.note_adt(ad);
                        let v = ad.variant(*vi);
                        let names: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "\"adt\",{},{},[{}]",
                            esc(&self.path(*d)),
                            esc(v.name.as_str()),
                            names.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        let names = tcx.closure_saved_names_of_captured_variables(*d);
                        let names: Vec<String> = names.iter().map(|f| esc(f.as_str())).collect();
                        format!("\"closure\",{},null,[{}]", esc(&self.path(*d)), names.join(","))
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("\"coroutine\",{},null,null", esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "\"rawptr\",null,null,null".to_string(),
                };
                let ops: Vec<String> = fs.iter().map(|o| self.operand(body, o, env)).collect();
                let _ = write!(head, ",[{}]", ops.join(","));
                format!("[\"agg\",{head}]")
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => {
                let k = if m.is_mut() { "mut" } else { "shared" };
                let pl = self.place(body, p);
                format!("[\"use\",{{\"c\":{}}},\"reborrow_{}\"]", pl, k)
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, o, env)),
        }
    }

    fn loc(&self, sp: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>, kind: &str, promoted: Option<u32>) -> String {
        let tcx = self.tcx;
        let env = body.typing_env(tcx);
        let mut s = String::new();
        let (file, line) = self.loc(body.span);
        let mut path = self.path(did);
        if let Some(p) = promoted {
            let _ = write!(path, "::promoted[{p}]");
        }
        let expn = body.span.from_expansion();
        let _ = write!(
            s,
            "{{\"path\":{},\"kind\":{},\"file\":{},\"line\":{},\"expn\":{},\"argc\":{}",
            esc(&path),
            esc(kind),
            esc(&file),
            line,
            expn,
            body.arg_count
        );
        if promoted.is_none() {
            let parent = tcx.opt_parent(did).map(|p| self.path(p)).unwrap_or_default();
            let _ = write!(s, ",\"parent\":{}", esc(&parent));
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let unsafety = tcx.fn_sig(did).skip_binder().safety().is_unsafe();
                let _ = write!(s, ",\"unsafe\":{unsafety},\"name\":{}", esc(tcx.item_name(did).as_str()));
                let vis = tcx.visibility(did).is_public();
                let _ = write!(s, ",\"pub\":{vis}");
                if let Some(imp) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"impl_self\":{}", esc(&self.ty_str(st)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"impl_trait\":{}", esc(&self.path(tr.def_id)));
                        let a: Vec<String> = tr.args.types().map(|t| esc(&self.ty_str(t))).collect();
                        let _ = write!(s, ",\"trait_args\":[{}]", a.join(","));
                        let derived = tcx.is_automatically_derived(imp);
                        let _ = write!(s, ",\"derived\":{derived}");
                    }
                }
            }
            let mut gn: Vec<String> = vec![];
            let g = tcx.generics_of(did);
            for i in 0..g.count() {
                let pd = g.param_at(i, tcx);
                if let ty::GenericParamDefKind::Type { .. } = pd.kind {
                    if pd.name.as_str().contains(' ') {
                        gn.push(esc(&format!("Impl{}", pd.index)));
                    } else {
                        gn.push(esc(pd.name.as_str()));
                    }
                }
            }
            let _ = write!(s, ",\"generics\":[{}]", gn.join(","));
            if tcx.def_kind(did) == DefKind::Closure {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"clty\":{}", esc(&self.ty_str(t)));
            }
        }
        // locals
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                }
            }
        }
        s.push_str(",\"locals\":[");
        for (l, d) in body.local_decls.iter_enumerated() {
            if l.as_u32() > 0 {
                s.push(',');
            }
            self.note_ty(d.ty);
            let _ = write!(s, "[{}", esc(&self.ty_str(d.ty)));
            if let Some(n) = names.get(&l.as_u32()) {
                let _ = write!(s, ",{}", esc(n));
            }
            s.push(']');
        }
        s.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                s.push(',');
            }
            if b.is_cleanup {
                s.push_str("null");
                continue;
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &b.statements {
                let line = self.loc(st.source_info.span).1;
                let txt = match &st.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        if matches!(r, Rvalue::Ref(_, BorrowKind::Fake(_), _)) {
                            continue;
                        }
                        format!("[\"=\",{},{},{}]", self.place(body, p), self.rvalue(body, r, env), line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{},{}]", self.place(body, place), variant_index.as_u32(), line)
                    }
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{},{}]", esc(&format!("{i:?}")), line),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&txt);
            }
            s.push_str("],\"t\":");
            let t = b.terminator();
            let line = self.loc(t.source_info.span).1;
            let txt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = String::new();
                    for (i, (val, bb)) in targets.iter().enumerate() {
                        if i > 0 {
                            v.push(',');
                        }
                        let _ = write!(v, "[{},{}]", val, bb.as_u32());
                    }
                    let t = discr.ty(body, tcx);
                    format!(
                        "[\"switch\",{},[{}],{},{},{}]",
                        self.operand(body, discr, env),
                        v,
                        targets.otherwise().as_u32(),
                        esc(&self.ty_str(t)),
                        line
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = self.place_ty(body, place);
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_u32(), esc(&self.ty_str(t)))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow_{op:?}"),
                        AssertKind::OverflowNeg(..) => "overflow_neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(body, cond, env),
                        expected,
                        esc(&m),
                        target.as_u32(),
                        line
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut c = String::new();
                    let ft = func.ty(body, tcx);
                    if let ty::FnDef(d, ga) = ft.kind() {
                        let ga = ga.no_bound_vars().unwrap();
                        let decl = self.path(*d);
                        let mut res = decl.clone();
                        let mut local = d.is_local();
                        let mut resolved = true;
                        let mut targs = ga;
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, *d, ga) {
                            res = self.path(i.def_id());
                            local = i.def_id().is_local();
                            targs = i.args;
                            if let ty::InstanceKind::Virtual(..) = i.def {
                                resolved = false;
                            }
                        } else {
                            resolved = tcx.trait_of_assoc(*d).is_none();
                        }
                        let gs: Vec<String> = ga
                            .types()
                            .map(|t| {
                                self.note_ty(t);
                                esc(&self.ty_str(t))
                            })
                            .collect();
                        let rs: Vec<String> = targs.types().map(|t| esc(&self.ty_str(t))).collect();
                        // closures among the generic arguments
                        let mut cl: Vec<String> = vec![];
                        for t in ga.types() {
                            if let ty::Closure(d, _) = t.kind() {
                                cl.push(esc(&self.path(*d)));
                            }
                            if let ty::FnDef(d, a) = t.kind() {
                                let a = a.no_bound_vars().unwrap();
                                let r = Instance::try_resolve(tcx, env, *d, a)
                                    .ok()
                                    .flatten()
                                    .map(|i| i.def_id())
                                    .unwrap_or(*d);
                                cl.push(esc(&self.path(r)));
                            }
                        }
                        let uns = tcx.fn_sig(*d).skip_binder().safety().is_unsafe();
                        let _ = write!(
                            c,
                            "{{\"decl\":{},\"fn\":{},\"local\":{},\"resolved\":{},\"gargs\":[{}],\"rargs\":[{}],\"fnargs\":[{}],\"unsafe\":{}}}",
                            esc(&decl),
                            esc(&res),
                            local,
                            resolved,
                            gs.join(","),
                            rs.join(","),
                            cl.join(","),
                            uns
                        );
                    } else {
                        let _ = write!(c, "{{\"ptr\":{},\"ty\":{}}}", self.operand(body, func, env), esc(&self.ty_str(ft)));
                    }
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(body, tcx);
                            esc(&self.ty_str(t))
                        })
                        .collect();
                    let dt = self.place_ty(body, destination);
                    format!(
                        "[\"call\",{},[{}],{},{},{},[{}],{}]",
                        c,
                        a.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        line,
                        at.join(","),
                        esc(&self.ty_str(dt))
                    )
                }
                other => format!("[\"other\",{}]", esc(&format!("{other:?}").chars().take(60).collect::<String>())),
            };
            s.push_str(&txt);
            s.push('}');
        }
        s.push_str("]}");
        s
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = String::new();
        let _ = write!(out, "{{\"crate\":{},\"bodies\":[", esc(&self.krate.clone()));
        let mut first = true;
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        for l in keys {
            let did = l.to_def_id();
            let kind = tcx.def_kind(did);
            let (b, k): (&Body<'tcx>, &str) = match kind {
                DefKind::Fn => (tcx.optimized_mir(did), "fn"),
                DefKind::AssocFn => (tcx.optimized_mir(did), "assocfn"),
                DefKind::Closure => (tcx.optimized_mir(did), "closure"),
                DefKind::Ctor(..) => continue,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    (tcx.mir_for_ctfe(did), if matches!(kind, DefKind::Static { .. }) { "static" } else { "const" })
                }
                _ => continue,
            };
            let t = self.body(did, b, k, None);
            if !first {
                out.push(',');
            }
            first = false;
            out.push_str(&t);
            for (pi, pb) in tcx.promoted_mir(did).iter_enumerated() {
                let t = self.body(did, pb, "promoted", Some(pi.as_u32()));
                out.push(',');
                out.push_str(&t);
            }
        }
        out.push_str("],\"consts\":{");
        // constants and statics
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            let k = tcx.def_kind(did);
            let isconst = matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. });
            if !isconst {
                continue;
            }
            let gens = tcx.generics_of(did);
            if gens.requires_monomorphization(tcx) {
                continue;
            }
            if matches!(k, DefKind::AssocConst { .. }) && tcx.trait_of_assoc(did).is_some() {
                continue;
            }
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            if let Ok(v) = tcx.const_eval_poly(did) {
                let x = self.const_val(v, t, 6);
                if !first {
                    out.push(',');
                }
                first = false;
                let _ = write!(out, "{}:[{},{}]", esc(&self.path(did)), esc(&self.ty_str(t)), x);
            }
        }
        out.push_str("},\"statics\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(did) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if !first {
                    out.push(',');
                }
                first = false;
                let _ = write!(
                    out,
                    "[{},{},{},{}]",
                    esc(&self.path(did)),
                    esc(&self.ty_str(t)),
                    mutability.is_mut(),
                    tcx.is_thread_local_static(did)
                );
            }
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let ad = tcx.adt_def(did);
                self.note_adt(ad);
            }
        }
        self.drain_adts(6);
        out.push_str("],\"adts\":{");
        let adts: Vec<String> = self.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        out.push_str(&adts.join(",\n"));
        // unsafe blocks in the HIR
        out.push_str("},\"unsafe_blocks\":[");
        let mut v = UnsafeVisitor { tcx, found: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
        let items: Vec<String> = v
            .found
            .iter()
            .map(|(d, sp)| {
                let (f, l) = self.loc(*sp);
                format!("[{},{},{},{}]", esc(&self.path(*d)), esc(&f), l, sp.from_expansion())
            })
            .collect();
        out.push_str(&items.join(","));
        out.push_str("]}");
        out
    }
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(DefId, rustc_span::Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            self.found.push((owner.to_def_id(), b.span));
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
}
