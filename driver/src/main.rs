//! Compiler driver that dumps the typed, resolved MIR of a crate as JSON facts.
//!
//! Used as a rustc wrapper: argv[1] is the path of the real rustc (ignored).
//! MIRFACTS_OUT names the output directory, MIRFACTS_CRATES the comma separated crate names to dump.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::sync::OnceLock;

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};

mod json;
use json::{esc, Arr, Obj};

struct Cb;

thread_local! {
    // coroutine bodies before their transformation into state machines
    static COROUTINES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

static ORIGINAL: OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>> = OnceLock::new();

fn keep_coroutine<'tcx>(tcx: TyCtxt<'tcx>, ld: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = ORIGINAL.get().unwrap()(tcx, ld);
    if tcx.coroutine_kind(ld).is_some() {
        let b: Body<'tcx> = r.borrow().clone();
        // only used while the context lives
        let b: Body<'static> = unsafe { std::mem::transmute(b) };
        COROUTINES.with(|c| c.borrow_mut().insert(ld, b));
    }
    r
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_, p| {
            let _ = ORIGINAL.set(p.queries.mir_drops_elaborated_and_const_checked);
            p.queries.mir_drops_elaborated_and_const_checked = keep_coroutine;
        });
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
        let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
        if !out.is_empty() && want.split(',').any(|w| w == cname) {
            let text = Dump::new(tcx, cname.clone(), want.split(',').map(|s| s.to_string()).collect()).run();
            let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
            let path = format!("{}/{}{}.json", out, cname, if is_bin { "-bin" } else { "" });
            let tmp = format!("{}.tmp{}", path, std::process::id());
            std::fs::write(&tmp, text).expect("write facts");
            std::fs::rename(&tmp, &path).expect("rename facts");
        }
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    cname: String,
    crates: HashSet<String>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    adt_queue: VecDeque<DefId>,
    funcs: Vec<(String, String)>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, DefId)>,
    statics: HashMap<DefId, String>,
}

const STD_INLINE: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::",
    "core::convert::",
    "core::iter::",
    "core::cmp::",
    "core::task::poll::",
    "core::bool::",
    "core::slice::iter::",
    "core::array::",
    "core::pin::",
    "core::clone::",
    "core::num::",
    "core::mem::",
    "core::str::",
    "core::slice::",
    "core::borrow::",
    "core::ptr::",
    "core::range::",
    "core::default::",
    "alloc::vec::into_iter",
    "alloc::slice::",
    "alloc::borrow::",
    "core::future::",
    "futures_util::",
    "futures_core::",
    "futures_sink::",
];

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>, cname: String, crates: HashSet<String>) -> Self {
        Dump {
            tcx,
            cname,
            crates,
            types: vec![],
            type_ids: HashMap::new(),
            adts: HashMap::new(),
            adt_queue: VecDeque::new(),
            funcs: vec![],
            seen: HashSet::new(),
            queue: VecDeque::new(),
            statics: HashMap::new(),
        }
    }

    fn run(mut self) -> String {
        let tcx = self.tcx;
        let mut coroutines: Vec<(LocalDefId, String)> = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            if matches!(tcx.def_kind(ld), DefKind::Closure) && tcx.coroutine_kind(ld).is_some() {
                let _ = tcx.mir_drops_elaborated_and_const_checked(ld);
                let body = COROUTINES.with(|c| c.borrow().get(&ld).cloned()).expect("coroutine body");
                let body: Body<'tcx> = unsafe { std::mem::transmute(body) };
                let args = ty::GenericArgs::identity_for_item(tcx, ld);
                let inst = Instance::new_raw(ld.to_def_id(), args);
                let env = TypingEnv::post_analysis(tcx, ld.to_def_id());
                let key = self.inst_key(inst, ld.to_def_id());
                let j = self.body_json(&body, inst, env, ld.to_def_id());
                coroutines.push((ld, key.clone()));
                self.seen.insert(key.clone());
                self.funcs.push((key, j));
            }
        }
        for &ld in tcx.mir_keys(()).iter() {
            let kind = tcx.def_kind(ld);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if coroutines.iter().any(|(c, _)| *c == ld) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, ld);
            let inst = Instance::new_raw(ld.to_def_id(), args);
            self.enqueue(inst, ld.to_def_id());
        }
        while let Some((inst, root)) = self.queue.pop_front() {
            let did = inst.def_id();
            let env = TypingEnv::post_analysis(tcx, root);
            let body = tcx.instance_mir(inst.def);
            let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            ) {
                Ok(b) => b,
                Err(_) => continue,
            };
            let key = self.inst_key(inst, root);
            let _ = did;
            let j = self.body_json(&body, inst, env, root);
            self.funcs.push((key, j));
        }
        // statics of this crate
        for &ld in tcx.mir_keys(()).iter() {
            if let DefKind::Static { .. } = tcx.def_kind(ld) {
                self.static_json(ld.to_def_id());
            }
        }
        // public items of the crate
        while let Some(d) = self.adt_queue.pop_front() {
            let j = self.adt_json(d);
            self.adts.insert(d, j);
        }
        let mut o = Obj::new();
        o.s("crate", &self.cname);
        let mut f = Obj::new();
        for (k, v) in &self.funcs {
            f.r(k, v);
        }
        o.r("functions", &f.end());
        let mut a = Obj::new();
        let mut adts: Vec<_> = self.adts.iter().map(|(d, v)| (self.path(*d), v.clone())).collect();
        adts.sort();
        for (k, v) in &adts {
            a.r(k, v);
        }
        o.r("adts", &a.end());
        let mut t = Arr::new();
        for x in &self.types {
            t.r(x);
        }
        o.r("types", &t.end());
        let mut s = Obj::new();
        let mut st: Vec<_> = self.statics.iter().map(|(d, v)| (self.path(*d), v.clone())).collect();
        st.sort();
        for (k, v) in &st {
            s.r(k, v);
        }
        o.r("statics", &s.end());
        o.r("consts", &self.consts_json());
        o.r("impls", &self.impls_json());
        o.end()
    }

    fn consts_json(&mut self) -> String {
        let tcx = self.tcx;
        let mut o = Obj::new();
        for &ld in tcx.mir_keys(()).iter() {
            if let DefKind::Const { .. } = tcx.def_kind(ld) {
                let env = TypingEnv::post_analysis(tcx, ld.to_def_id());
                let ty = tcx.type_of(ld).instantiate_identity().skip_norm_wip();
                if ty.has_param() {
                    continue;
                }
                if let Ok(v) = tcx.const_eval_poly(ld.to_def_id()) {
                    let j = self.cval_json(v, ty, env, 0);
                    o.r(&self.path(ld.to_def_id()), &j);
                }
            }
        }
        o.end()
    }

    fn impls_json(&mut self) -> String {
        let tcx = self.tcx;
        let mut a = Arr::new();
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                let mut o = Obj::new();
                let sty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                o.s("self", &sty.to_string());
                if of_trait {
                    let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                    o.s("trait", &self.path(tr.def_id));
                }
                a.r(&o.end());
            }
        }
        a.end()
    }

    fn static_json(&mut self, d: DefId) {
        if self.statics.contains_key(&d) {
            return;
        }
        self.statics.insert(d, "null".into());
        let tcx = self.tcx;
        let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let mut o = Obj::new();
        o.n("ty", self.ty(ty));
        o.b("mut", tcx.is_mutable_static(d));
        if d.is_local() {
            if let Ok(alloc) = tcx.eval_static_initializer(d) {
                let env = TypingEnv::fully_monomorphized();
                let id = tcx.reserve_and_set_memory_alloc(alloc);
                let v = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO };
                let j = self.cval_json(v, ty, env, 0);
                o.r("v", &j);
            }
        }
        let j = o.end();
        self.statics.insert(d, j);
    }

    // ---- names ---------------------------------------------------------

    fn path(&self, d: DefId) -> String {
        // crate::mod::Item without disambiguators, impls rendered as <Self as Trait>
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        match key.parent {
            None => tcx.crate_name(d.krate).to_string(),
            Some(p) => {
                let pd = DefId { krate: d.krate, index: p };
                if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                    let sty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sname = self.tyname(sty);
                    return if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let mut s = format!("<{} as {}", sname, self.path(tr.def_id));
                        let targs: Vec<String> = tr.args.types().skip(1).map(|t| self.tyname(t)).collect();
                        if !targs.is_empty() {
                            let _ = write!(s, "<{}>", targs.join(","));
                        }
                        s.push('>');
                        s
                    } else {
                        sname
                    };
                }
                let name = key.disambiguated_data.as_sym(
                    matches!(key.disambiguated_data.data, rustc_hir::definitions::DefPathData::Closure),
                );
                let pp = self.path(pd);
                if let DefKind::Ctor(..) = tcx.def_kind(d) {
                    return pp;
                }
                format!("{}::{}", pp, name)
            }
        }
    }

    // short structural name of a type, generic args dropped for ADTs
    fn tyname(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tyname(*t)),
            ty::RawPtr(t, _) => format!("*{}", self.tyname(*t)),
            ty::Slice(t) => format!("[{}]", self.tyname(*t)),
            ty::Array(t, _) => format!("[{};N]", self.tyname(*t)),
            ty::Dynamic(preds, _) => match preds.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".into(),
            },
            ty::Closure(d, _) => self.path(*d),
            ty::FnDef(d, _) => self.path(*d),
            ty::Param(p) => p.name.to_string(),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.tyname(t)).collect::<Vec<_>>().join(",")),
            _ => {
                rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())
            }
        }
    }

    fn inst_key(&self, inst: Instance<'tcx>, root: DefId) -> String {
        let d = inst.def_id();
        let tcx = self.tcx;
        let base = format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose());
        let ident = ty::GenericArgs::identity_for_item(tcx, d);
        let args: Vec<String> = inst
            .args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| rustc_middle::ty::print::with_no_trimmed_paths!(a.to_string()))
            .collect();
        let kind = match inst.def {
            InstanceKind::Item(_) => "",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "#once",
            _ => "#shim",
        };
        if args.is_empty() {
            return format!("{}{}", base, kind);
        }
        let is_ident = inst.args.iter().zip(ident.iter()).all(|(a, b)| a.as_region().is_some() || a == b);
        if is_ident && d.is_local() {
            return format!("{}{}", base, kind);
        }
        let erased = inst.args.has_param();
        let mut s = format!("{}{}<{}>", base, kind, args.join(","));
        if erased {
            let _ = write!(s, "@{}{}", tcx.crate_name(root.krate), tcx.def_path(root).to_string_no_crate_verbose());
        }
        s
    }

    fn wanted(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        let c = tcx.crate_name(d.krate).to_string();
        if self.crates.contains(&c) {
            return true;
        }
        let p = self.path(d);
        let p = p.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
        if STD_INLINE.iter().any(|pre| p.starts_with(pre)) {
            return true;
        }
        // trait impls in std for these traits
        false
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, root: DefId) -> Option<String> {
        let tcx = self.tcx;
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(d) => {
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
                    return None;
                }
                if !tcx.is_mir_available(d) || !self.wanted(d) {
                    return None;
                }
                if tcx.intrinsic(d).is_some() {
                    return None;
                }
                if d.is_local() && tcx.coroutine_kind(d).is_some() {
                    return None;
                }
            }
            _ => return None,
        }
        let key = self.inst_key(inst, root);
        let _ = d;
        if key.len() > 4000 {
            return None;
        }
        if self.seen.insert(key.clone()) {
            if self.seen.len() > 20000 {
                return None;
            }
            self.queue.push_back((inst, root));
        }
        Some(key)
    }

    // ---- types ---------------------------------------------------------

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push("null".into());
        self.type_ids.insert(t, i);
        let tcx = self.tcx;
        let mut o = Obj::new();
        o.s("s", &rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()));
        match t.kind() {
            ty::Bool => o.s("k", "bool"),
            ty::Char => o.s("k", "char"),
            ty::Int(x) => {
                o.s("k", "int");
                o.n("bits", x.bit_width().unwrap_or(64) as usize)
            }
            ty::Uint(x) => {
                o.s("k", "uint");
                o.n("bits", x.bit_width().unwrap_or(64) as usize)
            }
            ty::Adt(a, args) => {
                if !self.adts.contains_key(&a.did()) {
                    self.adts.insert(a.did(), "null".into());
                    self.adt_queue.push_back(a.did());
                }
                o.s("k", if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" });
                o.s("adt", &self.path(a.did()));
                let mut ar = Arr::new();
                let tys: Vec<Ty<'tcx>> = args.types().collect();
                for x in tys {
                    ar.n(self.ty(x));
                }
                o.r("args", &ar.end());
                if a.is_box() {
                    o.b("box", true);
                }
            }
            ty::Ref(_, x, m) => {
                o.s("k", "ref");
                let x = self.ty(*x);
                o.n("to", x);
                o.b("mut", m.is_mut());
            }
            ty::RawPtr(x, m) => {
                o.s("k", "ptr");
                let x = self.ty(*x);
                o.n("to", x);
                o.b("mut", m.is_mut());
            }
            ty::Slice(x) => {
                o.s("k", "slice");
                let x = self.ty(*x);
                o.n("to", x);
            }
            ty::Str => o.s("k", "str"),
            ty::Array(x, n) => {
                o.s("k", "array");
                let x = self.ty(*x);
                o.n("to", x);
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.n("n", n as usize);
                }
            }
            ty::Tuple(ts) => {
                o.s("k", "tuple");
                let mut ar = Arr::new();
                for x in ts.iter() {
                    ar.n(self.ty(x));
                }
                o.r("args", &ar.end());
            }
            ty::Closure(d, args) => {
                o.s("k", "closure");
                o.s("def", &self.path(*d));
                let mut ar = Arr::new();
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                for x in ups {
                    ar.n(self.ty(x));
                }
                o.r("args", &ar.end());
            }
            ty::Coroutine(d, _) => {
                o.s("k", "coroutine");
                o.s("def", &self.path(*d));
                let inst = Instance::new_raw(*d, ty::GenericArgs::identity_for_item(tcx, *d));
                o.s("key", &self.inst_key(inst, *d));
            }
            ty::FnDef(d, _) => {
                o.s("k", "fndef");
                o.s("def", &self.path(*d));
            }
            ty::FnPtr(..) => o.s("k", "fnptr"),
            ty::Dynamic(preds, _) => {
                o.s("k", "dyn");
                if let Some(d) = preds.principal_def_id() {
                    o.s("trait", &self.path(d));
                }
            }
            ty::Param(p) => {
                o.s("k", "param");
                o.s("name", p.name.as_str());
            }
            ty::Never => o.s("k", "never"),
            _ => o.s("k", "other"),
        }
        self.types[i] = o.end();
        i
    }

    fn adt_json(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut o = Obj::new();
        o.s("k", if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" });
        let mut vs = Arr::new();
        for (vi, v) in a.variants().iter_enumerated() {
            let mut vo = Obj::new();
            vo.s("name", v.name.as_str());
            if a.is_enum() {
                vo.s("discr", &a.discriminant_for_variant(tcx, vi).val.to_string());
            }
            let mut fs = Arr::new();
            for f in v.fields.iter() {
                let mut fo = Obj::new();
                fo.s("name", f.name.as_str());
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                fo.s("ty", &rustc_middle::ty::print::with_no_trimmed_paths!(fty.to_string()));
                fo.b("pub", f.vis.is_public());
                fs.r(&fo.end());
            }
            vo.r("fields", &fs.end());
            vs.r(&vo.end());
        }
        o.r("variants", &vs.end());
        o.b("pub", tcx.visibility(d).is_public());
        o.end()
    }

    // ---- bodies --------------------------------------------------------

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn body_json(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut o = Obj::new();
        o.s("name", &self.path(d));
        o.s("span", &self.span(body.span));
        o.n("argc", body.arg_count);
        if let Some(s) = body.spread_arg {
            o.n("spread", s.as_usize());
        }
        o.b("local", d.is_local());
        o.s("kind", &format!("{:?}", tcx.def_kind(d)));
        if tcx.is_closure_like(d) {
            o.s("parent", &self.path(tcx.typeck_root_def_id(d)));
            if tcx.coroutine_kind(d).is_some() {
                o.b("coroutine", true);
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.b("pub", tcx.visibility(d).is_public());
            o.b("unsafe", tcx.fn_sig(d).skip_binder().safety().is_unsafe());
            if let Some(im) = tcx.impl_of_assoc(d) {
                let sty = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.s("impl_self", &self.tyname(sty));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.s("impl_trait", &self.path(tr.def_id));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.s("in_trait", &self.path(tr));
            }
        }
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut ls = Arr::new();
        for (l, decl) in body.local_decls.iter_enumerated() {
            let mut lo = Obj::new();
            lo.n("ty", self.ty(decl.ty));
            if let Some(n) = names.get(&l.as_usize()) {
                lo.s("name", n);
            }
            ls.r(&lo.end());
        }
        o.r("locals", &ls.end());
        let mut bs = Arr::new();
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut bo = Obj::new();
            if data.is_cleanup {
                bo.b("cleanup", true);
            }
            let mut ss = Arr::new();
            for st in &data.statements {
                if let Some(j) = self.stmt_json(st, body, env, root) {
                    ss.r(&j);
                }
            }
            bo.r("s", &ss.end());
            let t = data.terminator();
            bo.r("t", &self.term_json(t, body, env, root));
            bs.r(&bo.end());
        }
        o.r("blocks", &bs.end());
        o.end()
    }

    fn stmt_json(&mut self, st: &Statement<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> Option<String> {
        let mut o = Obj::new();
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                o.r("p", &self.place(*p));
                o.r("r", &self.rvalue(r, body, env, root));
                o.s("sp", &self.span(st.source_info.span));
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                o.r("p", &self.place(**place));
                o.n("setd", variant_index.as_usize());
            }
            StatementKind::StorageDead(l) => {
                o.n("dead", l.as_usize());
            }
            _ => return None,
        }
        Some(o.end())
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut a = Arr::new();
        a.n(p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => a.s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    a.r(&format!("[\"f\",{},{}]", f.as_usize(), t))
                }
                ProjectionElem::Index(l) => a.r(&format!("[\"i\",{}]", l.as_usize())),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a.r(&format!("[\"ci\",{},{},{}]", offset, min_length, from_end))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    a.r(&format!("[\"sub\",{},{},{}]", from, to, from_end))
                }
                ProjectionElem::Downcast(_, v) => a.r(&format!("[\"v\",{}]", v.as_usize())),
                _ => a.r("[\"x\"]"),
            }
        }
        a.end()
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(*p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(*p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_, env, root)),
            Operand::RuntimeChecks(_) => "{\"rt\":1}".to_string(),
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let ty = c.ty();
        let mut o = Obj::new();
        o.n("ty", self.ty(ty));
        if let ty::FnDef(d, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap();
            o.r("fn", &self.callee(*d, args, env, root));
            return o.end();
        }
        if let ty::Closure(d, args) = ty.kind() {
            let inst = Instance::new_raw(*d, args);
            if let Some(k) = self.enqueue(inst, root) {
                o.s("closure", &k);
            }
            return o.end();
        }
        if let mir::Const::Unevaluated(u, _) = c {
            o.s("def", &self.path(u.def));
            if let Some(p) = u.promoted {
                o.n("promoted", p.as_usize());
            }
        }
        let span = rustc_span::DUMMY_SP;
        let generic_dep = match c {
            mir::Const::Unevaluated(u, _) => u.promoted.is_none() && u.args.has_param(),
            mir::Const::Ty(_, c) => c.has_param(),
            _ => false,
        };
        if !generic_dep {
            if let Ok(v) = c.eval(tcx, env, span) {
                let j = self.cval_json(v, ty, env, 0);
                o.r("v", &j);
            }
        }
        o.end()
    }

    fn bytes_of(&self, alloc_id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
            let m = m.inner();
            if off + len <= m.len() && len <= 1 << 16 {
                return Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec());
            }
        }
        None
    }

    fn cval_json(&mut self, v: ConstValue, ty: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let opaque = "{\"o\":1}".to_string();
        if depth > 6 {
            return opaque;
        }
        match v {
            ConstValue::ZeroSized => {
                if let ty::Adt(a, _) = ty.kind() {
                    if a.is_struct() {
                        return "{\"zst\":1}".into();
                    }
                }
                "{\"zst\":1}".into()
            }
            ConstValue::Slice { alloc_id, meta } => {
                let inner = match ty.kind() {
                    ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t,
                    _ => return opaque,
                };
                match inner.kind() {
                    ty::Str => match self.bytes_of(alloc_id, 0, meta as usize) {
                        Some(b) => format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b))),
                        None => opaque,
                    },
                    ty::Slice(t) if *t == tcx.types.u8 => match self.bytes_of(alloc_id, 0, meta as usize) {
                        Some(b) => format!("{{\"bytes\":{:?}}}", b),
                        None => opaque,
                    },
                    ty::Slice(t) if meta <= 64 => {
                        let at = Ty::new_array(tcx, *t, meta);
                        let j = self.cval_json(
                            ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO },
                            at,
                            env,
                            depth + 1,
                        );
                        format!("{{\"ref\":{}}}", j)
                    }
                    _ => opaque,
                }
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                match ty.kind() {
                    ty::Adt(..) => {
                        if let Some(dc) = self.destructure(v, ty) {
                            return self.destr_json(dc, ty, env, depth);
                        }
                        return opaque;
                    }
                    ty::Tuple(..) | ty::Array(..) => {
                        if let Some(dc) = self.destructure(v, ty) {
                            return self.destr_json(dc, ty, env, depth);
                        }
                        return opaque;
                    }
                    _ => {}
                }
                let size = i.size();
                if size.bytes() == 0 {
                    return "{\"zst\":1}".into();
                }
                let val = if let ty::Int(_) = ty.kind() { i.to_int(size).to_string() } else { i.to_bits(size).to_string() };
                format!("{{\"int\":{}}}", val)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let inner = match ty.kind() {
                    ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t,
                    ty::FnPtr(..) => {
                        return opaque;
                    }
                    _ => {
                        if let Some(dc) = self.destructure(v, ty) {
                            return self.destr_json(dc, ty, env, depth);
                        }
                        return opaque;
                    }
                };
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        self.static_json(d);
                        format!("{{\"static\":{}}}", esc(&self.path(d)))
                    }
                    GlobalAlloc::Memory(_) => {
                        let j = self.cval_json(
                            ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                            inner,
                            env,
                            depth + 1,
                        );
                        format!("{{\"ref\":{}}}", j)
                    }
                    _ => opaque,
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                match ty.kind() {
                    ty::Array(t, n) if *t == tcx.types.u8 => {
                        if let Some(n) = n.try_to_target_usize(tcx) {
                            if let Some(b) = self.bytes_of(alloc_id, offset.bytes() as usize, n as usize) {
                                return format!("{{\"bytes\":{:?}}}", b);
                            }
                        }
                        return opaque;
                    }
                    ty::Ref(_, t, _) if matches!(t.kind(), ty::Str | ty::Slice(_)) => {
                        // fat pointer in memory
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let m = m.inner();
                            let o = offset.bytes() as usize;
                            if o + 16 <= m.len() {
                                let raw = m.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
                                let addr = u64::from_le_bytes(raw[0..8].try_into().unwrap());
                                let len = u64::from_le_bytes(raw[8..16].try_into().unwrap());
                                if let Some(prov) = m.provenance().ptrs().get(&offset) {
                                    let aid = prov.alloc_id();
                                    if let Some(b) = match t.kind() {
                                        ty::Str => self.bytes_of(aid, addr as usize, len as usize),
                                        ty::Slice(e) if *e == tcx.types.u8 => self.bytes_of(aid, addr as usize, len as usize),
                                        _ => None,
                                    } {
                                        return match t.kind() {
                                            ty::Str => format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b))),
                                            _ => format!("{{\"bytes\":{:?}}}", b),
                                        };
                                    }
                                    if let ty::Slice(e) = t.kind() {
                                        if len <= 64 && matches!(tcx.global_alloc(aid), GlobalAlloc::Memory(_)) {
                                            let at = Ty::new_array(tcx, *e, len);
                                            let j = self.cval_json(
                                                ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(addr) },
                                                at,
                                                env,
                                                depth + 1,
                                            );
                                            return format!("{{\"ref\":{}}}", j);
                                        }
                                    }
                                } else if len == 0 {
                                    return match t.kind() {
                                        ty::Str => "{\"str\":\"\"}".into(),
                                        _ => "{\"ref\":{\"arr\":[]}}".into(),
                                    };
                                }
                            }
                        }
                        return opaque;
                    }
                    ty::Ref(_, t, _) => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let m = m.inner();
                            let o = offset.bytes() as usize;
                            if o + 8 <= m.len() {
                                let raw = m.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
                                let addr = u64::from_le_bytes(raw[0..8].try_into().unwrap());
                                if let Some(prov) = m.provenance().ptrs().get(&offset) {
                                    let aid = prov.alloc_id();
                                    match tcx.global_alloc(aid) {
                                        GlobalAlloc::Static(d) => {
                                            self.static_json(d);
                                            return format!("{{\"static\":{}}}", esc(&self.path(d)));
                                        }
                                        GlobalAlloc::Memory(_) => {
                                            let j = self.cval_json(
                                                ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(addr) },
                                                *t,
                                                env,
                                                depth + 1,
                                            );
                                            return format!("{{\"ref\":{}}}", j);
                                        }
                                        _ => {}
                                    }
                                }
                            }
                        }
                        return opaque;
                    }
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                        let size = match tcx.layout_of(env.as_query_input(ty)) {
                            Ok(l) => l.size.bytes() as usize,
                            Err(_) => return opaque,
                        };
                        if let Some(b) = self.bytes_of(alloc_id, offset.bytes() as usize, size) {
                            let mut v: u128 = 0;
                            for (i, x) in b.iter().enumerate() {
                                v |= (*x as u128) << (8 * i);
                            }
                            if let ty::Int(_) = ty.kind() {
                                let sh = 128 - 8 * size as u32;
                                return format!("{{\"int\":{}}}", ((v << sh) as i128) >> sh);
                            }
                            return format!("{{\"int\":{}}}", v);
                        }
                        return opaque;
                    }
                    _ => {}
                }
                if let Some(dc) = self.destructure(v, ty) {
                    return self.destr_json(dc, ty, env, depth);
                }
                opaque
            }
        }
    }

    fn destructure(&self, v: ConstValue, ty: Ty<'tcx>) -> Option<DestructuredConstant<'tcx>> {
        if ty.has_param() {
            return None;
        }
        match ty.kind() {
            ty::Adt(a, _) if a.is_union() => return None,
            ty::Adt(a, _) if a.is_enum() && a.variants().is_empty() => return None,
            ty::Adt(..) | ty::Tuple(_) => {}
            ty::Array(_, n) => {
                if n.try_to_target_usize(self.tcx).map_or(true, |n| n > 256) {
                    return None;
                }
            }
            _ => return None,
        }
        self.tcx.try_destructure_mir_constant_for_user_output(v, ty)
    }

    fn destr_json(&mut self, dc: DestructuredConstant<'tcx>, ty: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let mut a = Arr::new();
        for (v, t) in dc.fields.iter() {
            a.r(&self.cval_json(*v, *t, env, depth + 1));
        }
        match ty.kind() {
            ty::Array(..) => format!("{{\"arr\":{}}}", a.end()),
            _ => match dc.variant {
                Some(v) => format!("{{\"var\":{},\"f\":{}}}", v.as_usize(), a.end()),
                None => format!("{{\"f\":{}}}", a.end()),
            },
        }
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let mut o = Obj::new();
        o.s("name", &self.path(d));
        let mut a = Arr::new();
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        for t in tys {
            a.n(self.ty(t));
        }
        o.r("args", &a.end());
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.s("trait", &self.path(tr));
        }
        if tcx.intrinsic(d).is_some() {
            o.b("intrinsic", true);
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.b("ctor", true);
            // variant index and adt
            let parent = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let ad = tcx.parent(parent);
                    let adt = tcx.adt_def(ad);
                    (ad, adt.variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            o.s("adt", &self.path(adt));
            o.n("variant", var);
        }
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let args = tcx.erase_and_anonymize_regions(args);
            match Instance::try_resolve(tcx, env, d, args) {
                Ok(Some(inst)) => {
                    let mut r = Obj::new();
                    match inst.def {
                        InstanceKind::Item(rd) => {
                            r.s("kind", "item");
                            r.s("name", &self.path(rd));
                            let k = self.enqueue(inst, root);
                            match k {
                                Some(k) => r.s("key", &k),
                                None => {
                                    if self.crates.contains(tcx.crate_name(rd.krate).as_str()) && !rd.is_local() {
                                        // defined in another dumped crate
                                        let k = self.inst_key(inst, root);
                                        r.s("key", &k);
                                    }
                                }
                            }
                            let mut a = Arr::new();
                            let tys: Vec<Ty<'tcx>> = inst.args.types().collect();
                            for t in tys {
                                a.n(self.ty(t));
                            }
                            r.r("args", &a.end());
                        }
                        InstanceKind::Virtual(..) => r.s("kind", "virtual"),
                        InstanceKind::Intrinsic(_) => r.s("kind", "intrinsic"),
                        InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                            r.s("kind", "closure_once");
                            let _ = closure;
                            // self type is the closure
                            if let ty::Closure(cd, cargs) = args.type_at(0).kind() {
                                let ci = Instance::new_raw(*cd, cargs);
                                if let Some(k) = self.enqueue(ci, root) {
                                    r.s("key", &k);
                                }
                            }
                        }
                        InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                            r.s("kind", "fnptr");
                            if let ty::FnDef(fd, fargs) = t.kind() {
                                let fargs = fargs.no_bound_vars().unwrap();
                                let j = self.callee(*fd, fargs, env, root);
                                r.r("target", &j);
                            }
                        }
                        InstanceKind::Shim(ShimKind::Clone(..)) => r.s("kind", "clone"),
                        InstanceKind::Shim(ShimKind::DropGlue(..)) => r.s("kind", "drop"),
                        _ => r.s("kind", "other"),
                    }
                    o.r("r", &r.end());
                }
                _ => {}
            }
        }
        o.end()
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let mut o = Obj::new();
        match r {
            Rvalue::Use(op, _) => o.r("use", &self.operand(op, env, root)),
            Rvalue::Repeat(op, n) => {
                o.r("repeat", &self.operand(op, env, root));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.n("n", n as usize);
                }
            }
            Rvalue::Ref(_, k, p) => {
                o.r("ref", &self.place(*p));
                o.b("mut", matches!(k, BorrowKind::Mut { .. }));
            }
            Rvalue::RawPtr(k, p) => {
                o.r("ref", &self.place(*p));
                o.b("mut", matches!(k, RawPtrKind::Mut));
                o.b("raw", true);
            }
            Rvalue::ThreadLocalRef(_) => o.b("tls", true),
            Rvalue::Cast(k, op, t) => {
                o.r("cast", &self.operand(op, env, root));
                o.s("ck", &format!("{:?}", k).split('(').next().unwrap_or("").to_string());
                let from = op.ty(body, tcx);
                if let CastKind::PointerCoercion(pc, _) = k {
                    o.s("pc", &format!("{:?}", pc).split('(').next().unwrap_or("").to_string());
                }
                o.n("from", self.ty(from));
                o.n("to", self.ty(*t));
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                o.s("bin", &format!("{:?}", op));
                o.r("a", &self.operand(x, env, root));
                o.r("b", &self.operand(y, env, root));
                let t = x.ty(body, tcx);
                o.n("ty", self.ty(t));
            }
            Rvalue::UnaryOp(op, x) => {
                o.s("un", &format!("{:?}", op));
                o.r("a", &self.operand(x, env, root));
            }
            Rvalue::Discriminant(p) => o.r("discr", &self.place(*p)),
            Rvalue::Aggregate(k, ops) => {
                let mut a = Arr::new();
                for x in ops.iter() {
                    a.r(&self.operand(x, env, root));
                }
                o.r("agg", &a.end());
                match &**k {
                    AggregateKind::Array(_) => o.s("ak", "array"),
                    AggregateKind::Tuple => o.s("ak", "tuple"),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        o.s("ak", "adt");
                        o.s("adt", &self.path(*d));
                        o.n("variant", v.as_usize());
                        o.b("enum", tcx.adt_def(*d).is_enum());
                        if let Some(f) = f {
                            o.n("ufield", f.as_usize());
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        o.s("ak", "closure");
                        o.s("def", &self.path(*d));
                        let inst = Instance::new_raw(*d, args);
                        if let Some(k) = self.enqueue(inst, root) {
                            o.s("key", &k);
                        }
                    }
                    AggregateKind::Coroutine(d, args) => {
                        o.s("ak", "coroutine");
                        o.s("def", &self.path(*d));
                        let ident = Instance::new_raw(*d, ty::GenericArgs::identity_for_item(tcx, *d));
                        let _ = args;
                        o.s("key", &self.inst_key(ident, *d));
                    }
                    AggregateKind::RawPtr(..) => o.s("ak", "rawptr"),
                    _ => o.s("ak", "other"),
                }
                let t = r.ty(body, tcx);
                o.n("ty", self.ty(t));
            }
            Rvalue::CopyForDeref(p) => {
                let s = self.place(*p);
                o.r("use", &format!("{{\"c\":{}}}", s))
            }
            Rvalue::Reborrow(_, _, p) => {
                let s = self.place(*p);
                o.r("use", &format!("{{\"c\":{}}}", s))
            }
            Rvalue::WrapUnsafeBinder(op, _) => o.r("use", &self.operand(op, env, root)),
        }
        o.end()
    }

    fn term_json(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let mut o = Obj::new();
        o.s("sp", &self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.s("k", "goto");
                o.n("t", target.as_usize());
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.s("k", "switch");
                o.r("d", &self.operand(discr, env, root));
                let ty = discr.ty(body, tcx);
                o.n("ty", self.ty(ty));
                let mut a = Arr::new();
                for (v, b) in targets.iter() {
                    a.r(&format!("[{},{}]", v, b.as_usize()));
                }
                o.r("vs", &a.end());
                o.n("else", targets.otherwise().as_usize());
            }
            TerminatorKind::UnwindResume => o.s("k", "resume"),
            TerminatorKind::UnwindTerminate(_) => o.s("k", "abort"),
            TerminatorKind::Return => o.s("k", "return"),
            TerminatorKind::Unreachable => o.s("k", "unreachable"),
            TerminatorKind::Drop { place, target, .. } => {
                o.s("k", "drop");
                o.r("p", &self.place(*place));
                let ty = place.ty(body, tcx).ty;
                o.n("ty", self.ty(ty));
                o.n("t", target.as_usize());
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                o.s("k", "call");
                o.r("f", &self.operand(func, env, root));
                let mut a = Arr::new();
                for x in args.iter() {
                    a.r(&self.operand(&x.node, env, root));
                }
                o.r("a", &a.end());
                o.r("d", &self.place(*destination));
                let dt = destination.ty(body, tcx).ty;
                o.n("dty", self.ty(dt));
                if let Some(t) = target {
                    o.n("t", t.as_usize());
                }
                o.s("fsp", &self.span(*fn_span));
                o.b("mac", fn_span.from_expansion());
            }
            TerminatorKind::TailCall { .. } => o.s("k", "tailcall"),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.s("k", "assert");
                o.r("c", &self.operand(cond, env, root));
                o.b("e", *expected);
                o.n("t", target.as_usize());
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        let l = self.operand(len, env, root);
                        let i = self.operand(index, env, root);
                        o.r("len", &l);
                        o.r("idx", &i);
                        "bounds".to_string()
                    }
                    AssertKind::Overflow(op, ..) => format!("overflow-{:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow-Neg".into(),
                    AssertKind::DivisionByZero(_) => "div0".into(),
                    AssertKind::RemainderByZero(_) => "rem0".into(),
                    _ => "other".into(),
                };
                o.s("m", &m);
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                o.s("k", "yield");
                o.r("v", &self.operand(value, env, root));
                o.n("t", resume.as_usize());
                o.r("d", &self.place(*resume_arg));
            }
            TerminatorKind::CoroutineDrop => o.s("k", "codrop"),
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.s("k", "goto");
                o.n("t", real_target.as_usize());
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.s("k", "goto");
                o.n("t", real_target.as_usize());
            }
            TerminatorKind::InlineAsm { .. } => o.s("k", "asm"),
        }
        o.end()
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
