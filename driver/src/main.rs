// Fact extractor: a rustc driver that dumps the type-checked program (MIR of the
// crate's bodies, the instances they reach, ADTs, constants, vtables) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

macro_rules! P {
    ($e:expr) => {
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_crate_prefix!($e)
        ))
    };
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    types_out: Vec<String>,
    adts: HashMap<String, String>,
    queued: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String)>,
    funcs: Vec<String>,
    vtables: HashMap<String, String>,
    statics: HashMap<String, String>,
    models: HashMap<String, DefId>,
    locals: Vec<Ty<'tcx>>,
}

// std code that may be inlined by the analysis; everything else is opaque or modelled
const INLINE: &[&str] = &[
    "core::option", "core::result", "core::iter", "core::convert", "core::cmp", "core::ops", "core::mem",
    "core::bool", "core::tuple", "core::char", "core::num", "core::clone", "core::default", "core::borrow",
    "core::array", "core::pin", "core::future", "alloc::borrow", "core::any", "core::io", "std::io",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        P!(self.tcx.def_path_str(d))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.types_out.len();
        self.types.insert(t, i);
        self.types_out.push(String::new());
        let s = self.ty_json(t);
        self.types_out[i] = s;
        i
    }
    fn tys_of_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let s = js(&P!(format!("{}", t)));
        let mut sz: i64 = -1;
        let mut al: i64 = -1;
        if !t.has_escaping() && !matches!(t.kind(), ty::Param(_)) && !has_params(t) {
            if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                if l.is_sized() {
                    sz = l.size.bytes() as i64;
                    al = l.align.abi.bytes() as i64;
                }
            }
        }
        let head = format!("\"s\":{},\"size\":{},\"align\":{}", s, sz, al);
        match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",{}}}", head),
            ty::Char => format!("{{\"k\":\"char\",{}}}", head),
            ty::Int(_) => format!("{{\"k\":\"int\",{}}}", head),
            ty::Uint(_) => format!("{{\"k\":\"uint\",{}}}", head),
            ty::Float(_) => format!("{{\"k\":\"float\",{}}}", head),
            ty::Str => format!("{{\"k\":\"str\",{}}}", head),
            ty::Never => format!("{{\"k\":\"never\",{}}}", head),
            ty::Ref(_, i, m) => { let x = self.ty(*i); format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{},{}}}", m.is_mut(), x, head) }
            ty::RawPtr(i, m) => { let x = self.ty(*i); format!("{{\"k\":\"ptr\",\"mut\":{},\"t\":{},{}}}", m.is_mut(), x, head) }
            ty::Slice(i) => { let x = self.ty(*i); format!("{{\"k\":\"slice\",\"t\":{},{}}}", x, head) }
            ty::Array(i, n) => {
                let x = self.ty(*i);
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{},{}}}", x, n, head)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"ts\":[{}],{}}}", v.join(","), head)
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = self.tys_of_args(args);
                self.adt(*def);
                // instantiated field types (local ADTs and a few std ones)
                let mut vs = vec![];
                let local = def.did().is_local();
                let small = def.is_enum() || local || p.starts_with("core::");
                if small && !def.is_union() {
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ft).unwrap_or_else(|_| tcx.erase_and_anonymize_regions(ft.skip_norm_wip()));
                            fs.push(self.ty(ft).to_string());
                        }
                        vs.push(format!("[{}]", fs.join(",")));
                    }
                }
                format!("{{\"k\":\"adt\",\"adt\":{},\"args\":{},\"ft\":[{}],{}}}", js(&p), a, vs.join(","), head)
            }
            ty::FnDef(d, args) => {
                let p = self.path((*d).into());
                let a = self.tys_of_args(args.skip_binder());
                format!("{{\"k\":\"fndef\",\"path\":{},\"args\":{},{}}}", js(&p), a, head)
            }
            ty::Closure(d, args) => {
                let ups = args.as_closure().upvar_tys();
                let v: Vec<String> = ups.iter().map(|x| self.ty(x).to_string()).collect();
                let p = self.path((*d).into());
                format!("{{\"k\":\"closure\",\"path\":{},\"ups\":[{}],{}}}", js(&p), v.join(","), head)
            }
            ty::Coroutine(d, args) => {
                // the state of a suspended async function: captured variables, saved locals, and the state number
                let ups = args.as_coroutine().upvar_tys();
                let v: Vec<String> = ups.iter().map(|x| self.ty(x).to_string()).collect();
                let p = self.path((*d).into());
                let saved = self.saved(*d);
                format!("{{\"k\":\"coroutine\",\"path\":{},\"ups\":[{}],\"saved\":{},{}}}", js(&p), v.join(","), saved, head)
            }
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("{{\"k\":\"dyn\",\"trait\":{},{}}}", js(&p), head)
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"name\":{},{}}}", js(p.name.as_str()), head),
            _ => format!("{{\"k\":\"other\",{}}}", head),
        }
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let mut vs = vec![];
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        for (i, v) in def.variants().iter_enumerated() {
            let d = if def.is_enum() { def.discriminant_for_variant(tcx, i).val as i128 } else { 0 };
            let fs: Vec<String> = v.fields.iter().map(|f| {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                format!("{{\"name\":{},\"ty\":{},\"pub\":{}}}", js(f.name.as_str()),
                    js(&P!(format!("{}", t))), tcx.visibility(f.did).is_public())
            }).collect();
            vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}", js(v.name.as_str()), d, fs.join(",")));
        }
        let s = format!("{{\"kind\":\"{}\",\"local\":{},\"variants\":[{}]}}", kind, def.did().is_local(), vs.join(","));
        self.adts.insert(p, s);
    }

    fn key(&self, inst: &Instance<'tcx>) -> String {
        let base = P!(self.tcx.def_path_str_with_args(inst.def_id(), inst.args));
        match inst.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Shim(k) => match k {
                ShimKind::ClosureOnce { closure, .. } => format!("{}#once#{}", base, self.path(closure)),
                ShimKind::Clone(_, t) => P!(format!("{}#cloneshim#{}", base, t)),
                ShimKind::FnPtr(_, t) => P!(format!("{}#fnptr#{}", base, t)),
                _ => format!("{}#shim", base),
            },
            _ => format!("{}#{:?}", base, std::mem::discriminant(&inst.def)),
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let k = self.key(&inst);
        if self.queued.contains(&k) {
            return Some(k);
        }
        match inst.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return None;
                }
                if !d.is_local() {
                    let root = tcx.typeck_root_def_id(d);
                    let p = format!("{}{}", tcx.crate_name(root.krate), tcx.def_path(root).to_string_no_crate_verbose());
                    if !INLINE.iter().any(|x| p.starts_with(x)) {
                        return None;
                    }
                    if p.contains("::fmt::") { return None; }
                }
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => {}
            InstanceKind::Shim(ShimKind::FnPtr(..)) => {}
            InstanceKind::Shim(ShimKind::Clone(..)) => {}
            _ => return None,
        }
        self.queued.insert(k.clone());
        self.queue.push_back((inst, env, k.clone()));
        Some(k)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let targs = self.tys_of_args(args);
        let mut trait_ = String::new();
        let mut self_ty: i64 = -1;
        let mut provided = false;
        if let Some(t) = tcx.trait_of_assoc(d) {
            trait_ = self.path(t);
            if args.len() > 0 {
                if let Some(st) = args[0].as_type() { self_ty = self.ty(st) as i64; }
            }
            provided = tcx.defaultness(d).has_value();
        }
        let mut inst_key = None;
        let mut kind = "unresolved";
        let mut ipath = path.clone();
        let r = if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { Ok(None) } else { Instance::try_resolve(tcx, env, d, args) };
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            kind = "ctor";
        }
        if let Ok(Some(mut inst)) = r {
            if trait_ == "core::iter::traits::iterator::Iterator" || trait_ == "core::iter::traits::double_ended::DoubleEndedIterator" {
                // provided iterator methods: use the trait's own default body (the contract)
                if provided && matches!(inst.def, InstanceKind::Item(_)) {
                    inst = Instance { def: InstanceKind::Item(d), args };
                }
            }
            if let Some((m, margs)) = self.redirect(&path, args, env) {
                inst = Instance { def: InstanceKind::Item(m), args: margs };
            }
            kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                InstanceKind::Shim(_) => "shim",
            };
            ipath = self.path(inst.def_id());
            inst_key = self.enqueue(inst, env);
            if let InstanceKind::Item(di) = inst.def {
                if matches!(tcx.def_kind(di), DefKind::Ctor(..)) { kind = "ctor"; inst_key = None; }
            }
        }
        let (mut cadt, mut cvar) = (String::new(), -1i64);
        if kind == "ctor" {
            let mut cd = d;
            if let DefKind::Ctor(..) = tcx.def_kind(d) { cd = tcx.parent(d); }
            if tcx.def_kind(cd) == DefKind::Variant {
                let e = tcx.parent(cd);
                cvar = tcx.adt_def(e).variant_index_with_id(cd).as_usize() as i64;
                cadt = self.path(e);
            } else { cadt = self.path(cd); cvar = 0; }
        }
        format!("{{\"path\":{},\"ipath\":{},\"args\":{},\"trait\":{},\"self\":{},\"kind\":\"{}\",\"inst\":{},\"local\":{},\"name\":{},\"adt\":{},\"variant\":{}}}",
            js(&path), js(&ipath), targs, js(&trait_), self_ty, kind,
            inst_key.map(|k| js(&k)).unwrap_or("null".into()), d.is_local(),
            js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()), js(&cadt), cvar)
    }

    fn model(&self, name: &str) -> Option<DefId> {
        self.models.get(name).copied()
    }
    // calls into std that are replaced by their contract in `vmodels`
    fn redirect(&mut self, path: &str, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let nt: Vec<Ty<'tcx>> = args.types().collect();
        let norm = |t: Ty<'tcx>| t;
        let adt = |t: Ty<'tcx>| -> Option<(String, Vec<Ty<'tcx>>)> {
            if let ty::Adt(d, a) = t.kind() { Some((P!(tcx.def_path_str(d.did())), a.types().collect())) } else { None }
        };
        let mk = |m: Option<DefId>, v: Vec<Ty<'tcx>>| -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
            let m = m?;
            let mut it = v.into_iter();
            let ga = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => it.next().expect("model generic").into(),
            });
            Some((m, ga))
        };
        let _ = (&env, norm);
        let collect = |cx: &Self, i: Ty<'tcx>, b: Ty<'tcx>| -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
            let (p, a) = adt(b)?;
            match p.as_str() {
                "alloc::vec::Vec" => mk(cx.model("collect_vec"), vec![a[0], i]),
                "alloc::collections::btree::map::BTreeMap" => mk(cx.model("collect_btree"), vec![a[0], a[1], i]),
                "std::collections::hash::map::HashMap" => mk(cx.model("collect_hash"), vec![a[0], a[1], i]),
                "alloc::string::String" => {
                    let it = cx.item_ty(i, env)?;
                    match it.kind() {
                        ty::Char => mk(cx.model("collect_string_char"), vec![i]),
                        ty::Ref(_, x, _) if matches!(x.kind(), ty::Str) => mk(cx.model("collect_string_str"), vec![i]),
                        ty::Adt(d, _) if P!(tcx.def_path_str(d.did())) == "alloc::string::String" => mk(cx.model("collect_string_string"), vec![i]),
                        _ => None,
                    }
                }
                "core::result::Result" => {
                    if let ty::Tuple(ts) = a[0].kind() { if ts.len() == 0 { return mk(cx.model("collect_result_unit"), vec![a[1], i]); } }
                    let (p2, a2) = adt(a[0])?;
                    if p2 == "alloc::vec::Vec" { return mk(cx.model("collect_result_vec"), vec![a2[0], a[1], i]); }
                    None
                }
                "core::option::Option" => {
                    let (p2, a2) = adt(a[0])?;
                    if p2 == "alloc::vec::Vec" { return mk(cx.model("collect_option_vec"), vec![a2[0], i]); }
                    None
                }
                _ => None,
            }
        };
        match path {
            "core::iter::traits::iterator::Iterator::collect" => collect(self, nt[0], nt[1]),
            "core::iter::traits::collect::FromIterator::from_iter" => collect(self, *nt.last()?, nt[0]),
            "core::iter::traits::collect::Extend::extend" => {
                let (p, a) = adt(nt[0])?;
                if p != "alloc::vec::Vec" { return None; }
                if nt[1] == a[0] { mk(self.model("vec_extend"), vec![a[0], nt[2]]) } else { mk(self.model("vec_extend_ref"), vec![a[0], nt[2]]) }
            }
            "alloc::vec::Vec::<T, A>::resize_with" => mk(self.model("vec_resize_with"), vec![nt[0], nt[2]]),
            "alloc::vec::Vec::<T, A>::resize" => mk(self.model("vec_resize"), vec![nt[0]]),
            "core::iter::traits::iterator::Iterator::partition" => {
                let (p, a) = adt(nt[1])?;
                if p != "alloc::vec::Vec" { return None; }
                mk(self.model("partition_vec"), vec![a[0], nt[0], nt[2]])
            }
            "core::iter::traits::iterator::Iterator::zip" => mk(self.model("zip"), vec![nt[0], nt[1]]),
            "core::iter::traits::iterator::Iterator::next" => {
                let (p, a) = adt(nt[0])?;
                if p == "core::iter::adapters::zip::Zip" { return mk(self.model("zip_next"), vec![a[0], a[1]]); }
                None
            }
            "core::slice::<impl [T]>::binary_search_by_key" => mk(self.model("binary_search_by_key"), nt.clone()),
            "alloc::slice::<impl [T]>::sort_by" | "core::slice::<impl [T]>::sort_unstable_by" => mk(self.model("sort_by"), nt.clone()),
            "alloc::slice::<impl [T]>::sort_by_key" | "core::slice::<impl [T]>::sort_unstable_by_key" | "alloc::slice::<impl [T]>::sort_by_cached_key" => mk(self.model("sort_by_key"), nt.clone()),
            "alloc::slice::<impl [T]>::sort" | "core::slice::<impl [T]>::sort_unstable" => mk(self.model("sort"), nt.clone()),
            "core::slice::<impl [T]>::binary_search_by" => mk(self.model("binary_search_by"), vec![nt[0], nt[1]]),
            "alloc::collections::btree::map::BTreeMap::<K, V, A>::retain" => mk(self.model("btree_retain"), vec![nt[0], nt[1], nt[3]]),
            "core::cmp::Ord::cmp" | "core::cmp::PartialOrd::partial_cmp" => {
                let part = path.ends_with("partial_cmp");
                match nt[0].kind() {
                    ty::Slice(t) => mk(self.model(if part { "slice_partial_cmp" } else { "slice_cmp" }), vec![*t]),
                    ty::Adt(..) => {
                        let (p, a) = adt(nt[0])?;
                        if p != "alloc::vec::Vec" { return None; }
                        mk(self.model(if part { "vec_partial_cmp" } else { "vec_cmp" }), vec![a[0]])
                    }
                    _ => None,
                }
            }
            "core::str::<impl str>::trim_matches" | "core::str::<impl str>::trim_start_matches" | "core::str::<impl str>::trim_end_matches"
                if matches!(nt[0].kind(), ty::Closure(..)) => mk(self.model(&format!("str_{}", path.rsplit("::").next()?)), vec![nt[0]]),
            "core::slice::<impl [T]>::starts_with" => mk(self.model("slice_starts_with"), vec![nt[0]]),
            "core::slice::<impl [T]>::ends_with" => mk(self.model("slice_ends_with"), vec![nt[0]]),
            "core::slice::<impl [T]>::contains" => mk(self.model("slice_contains"), vec![nt[0]]),
            _ => None,
        }
    }
    fn item_ty(&self, i: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        let ii = tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        let it = tcx.associated_items(ii).in_definition_order().find(|x| x.name().as_str() == "Item")?.def_id;
        let p = Ty::new_projection(tcx, ty::IsRigid::No, it, [i]);
        tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(p)).ok()
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let ty = c.const_.ty();
        let ti = self.ty(ty);
        if let ty::FnDef(d, args) = ty.kind() {
            let cal = self.callee((*d).into(), args.skip_binder(), env);
            return format!("{{\"c\":\"fn\",\"ty\":{},\"callee\":{}}}", ti, cal);
        }
        let named = if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() { self.path(u.def) } else { String::new() }
        } else { String::new() };
        if has_params(ty) {
            return format!("{{\"c\":\"opaque\",\"ty\":{},\"s\":{}}}", ti, js(&P!(format!("{}", c.const_))));
        }
        let v = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => self.cval(v, ty, 0),
            Err(_) => format!("{{\"c\":\"opaque\",\"ty\":{},\"s\":{}}}", ti, js(&P!(format!("{}", c.const_)))),
        };
        if named.is_empty() { v } else { format!("{},\"named\":{}}}", &v[..v.len() - 1], js(&named)) }
    }

    fn cval(&mut self, v: mir::ConstValue, ty: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ti = self.ty(ty);
        let opaque = |s: &str| format!("{{\"c\":\"opaque\",\"ty\":{},\"s\":{}}}", ti, js(s));
        if depth > 8 {
            return opaque("deep");
        }
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let bits = match v {
                    mir::ConstValue::Scalar(Scalar::Int(i)) => Some((i.to_bits(i.size()), i.size().bits())),
                    mir::ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let size = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(ty)).unwrap().size;
                            match a.inner().read_scalar(&tcx, AllocRange { start: offset, size }, false) {
                                Ok(Scalar::Int(i)) => Some((i.to_bits(i.size()), i.size().bits())),
                                _ => None,
                            }
                        } else { None }
                    }
                    _ => None,
                };
                match bits {
                    None => opaque("scalar"),
                    Some((b, n)) => match ty.kind() {
                        ty::Bool => format!("{{\"c\":\"bool\",\"ty\":{},\"v\":{}}}", ti, b != 0),
                        ty::Int(_) => {
                            let sv = if n == 128 { b as i128 } else if b >> (n - 1) & 1 == 1 { b as i128 - (1i128 << n) } else { b as i128 };
                            format!("{{\"c\":\"int\",\"ty\":{},\"v\":\"{}\"}}", ti, sv)
                        }
                        ty::Char => format!("{{\"c\":\"char\",\"ty\":{},\"v\":\"{}\"}}", ti, b),
                        ty::Float(_) => format!("{{\"c\":\"float\",\"ty\":{},\"v\":\"{}\"}}", ti, b),
                        _ => format!("{{\"c\":\"int\",\"ty\":{},\"v\":\"{}\"}}", ti, b),
                    },
                }
            }
            ty::FnDef(d, args) => {
                let cal = self.callee((*d).into(), args.skip_binder(), TypingEnv::fully_monomorphized());
                format!("{{\"c\":\"fn\",\"ty\":{},\"callee\":{}}}", ti, cal)
            }
            ty::FnPtr(..) => {
                if let mir::ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    if let GlobalAlloc::Function { instance, .. } = tcx.global_alloc(p.provenance.alloc_id()) {
                        let k = self.enqueue(instance, TypingEnv::fully_monomorphized());
                        return format!("{{\"c\":\"fnptr\",\"ty\":{},\"inst\":{}}}", ti, k.map(|k| js(&k)).unwrap_or("null".into()));
                    }
                }
                opaque("fnptr")
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let inner = *inner;
                let (aid, off, meta) = match v {
                    mir::ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, Some(meta)),
                    mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => { let (pr, o) = p.into_raw_parts(); (pr.alloc_id(), o, None) }
                    mir::ConstValue::Indirect { alloc_id, offset } => {
                        let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return opaque("ind") };
                        let ps = tcx.data_layout.pointer_size();
                        let p = match a.inner().read_scalar(&tcx, AllocRange { start: offset, size: ps }, true) {
                            Ok(Scalar::Ptr(p, _)) => p,
                            _ => return opaque("noptr"),
                        };
                        let (pr, o) = p.into_raw_parts();
                        let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                            match a.inner().read_scalar(&tcx, AllocRange { start: offset + ps, size: ps }, false) {
                                Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                                _ => None,
                            }
                        } else { None };
                        (pr.alloc_id(), o, meta)
                    }
                    _ => return opaque("ref"),
                };
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => { self.static_(d); return format!("{{\"c\":\"static\",\"ty\":{},\"path\":{}}}", ti, js(&self.path(d))) }
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        match inner.kind() {
                            ty::Str => {
                                let Some(n) = meta else { return opaque("str") };
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                                return format!("{{\"c\":\"str\",\"ty\":{},\"v\":{}}}", ti, js(&String::from_utf8_lossy(b)));
                            }
                            ty::Slice(e) => {
                                let Some(n) = meta else { return opaque("slice") };
                                let e = *e;
                                let sz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(e)).unwrap().size;
                                let mut v = vec![];
                                for i in 0..n {
                                    v.push(self.cval(mir::ConstValue::Indirect { alloc_id: aid, offset: off + sz * i }, e, depth + 1));
                                }
                                return format!("{{\"c\":\"ref\",\"ty\":{},\"v\":{{\"c\":\"arr\",\"slice\":true,\"v\":[{}]}}}}", ti, v.join(","));
                            }
                            ty::Dynamic(..) => return opaque("dyn"),
                            _ => {
                                let x = self.cval(mir::ConstValue::Indirect { alloc_id: aid, offset: off }, inner, depth + 1);
                                return format!("{{\"c\":\"ref\",\"ty\":{},\"v\":{}}}", ti, x);
                            }
                        }
                    }
                    _ => return opaque("alloc"),
                }
            }
            ty::Array(e, n) => {
                let e = *e;
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if n > 4096 { return opaque("bigarr"); }
                if let mir::ConstValue::Indirect { alloc_id, offset } = v {
                    let sz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(e)).unwrap().size;
                    let mut o = vec![];
                    for i in 0..n {
                        o.push(self.cval(mir::ConstValue::Indirect { alloc_id, offset: offset + sz * i }, e, depth + 1));
                    }
                    return format!("{{\"c\":\"arr\",\"ty\":{},\"v\":[{}]}}", ti, o.join(","));
                }
                if n == 0 { return format!("{{\"c\":\"arr\",\"ty\":{},\"v\":[]}}", ti); }
                if n == 1 { let x = self.cval(v, e, depth + 1); return format!("{{\"c\":\"arr\",\"ty\":{},\"v\":[{}]}}", ti, x); }
                opaque("arr")
            }
            ty::Tuple(_) | ty::Adt(..) => {
                if let ty::Adt(d, _) = ty.kind() { if d.is_union() { return opaque("union"); } }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    let mut fs = vec![];
                    for (fv, ft) in dc.fields.iter() {
                        fs.push(self.cval(*fv, *ft, depth + 1));
                    }
                    return format!("{{\"c\":\"adt\",\"ty\":{},\"variant\":{},\"fields\":[{}]}}", ti, dc.variant.map(|x| x.as_usize()).unwrap_or(0), fs.join(","));
                }
                opaque("adt")
            }
            ty::Closure(..) => {
                format!("{{\"c\":\"closure\",\"ty\":{}}}", ti)
            }
            _ => opaque("other"),
        }
    }
    fn static_(&mut self, d: DefId) {
        let p = self.path(d);
        if self.statics.contains_key(&p) { return; }
        self.statics.insert(p.clone(), "null".into());
        if let Ok(a) = self.tcx.eval_static_initializer(d) {
            let _ = a;
        }
    }

    fn saved(&self, d: DefId) -> usize {
        self.tcx.optimized_mir(d).coroutine_layout_raw().map(|l| l.field_tys.len()).unwrap_or(0)
    }
    // the field that holds the state number of a coroutine
    fn state_field(&mut self, t: Ty<'tcx>) -> Option<String> {
        let ty::Coroutine(d, args) = t.kind() else { return None };
        let n = args.as_coroutine().upvar_tys().len() + self.saved(*d);
        let ti = self.ty(self.tcx.types.u32);
        Some(format!(",[\"f\",{},{}]]", n, ti))
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut cur: Option<Ty<'tcx>> = self.locals.get(p.local.as_usize()).copied();
        let mut down = None;
        for e in p.projection.iter() {
            let at = cur;
            cur = match e {
                mir::ProjectionElem::Deref => at.and_then(|t| t.builtin_deref(true)),
                mir::ProjectionElem::Field(_, t) => Some(t),
                mir::ProjectionElem::Downcast(..) => at,
                mir::ProjectionElem::Index(_) | mir::ProjectionElem::ConstantIndex { .. } => at.and_then(|t| t.builtin_index()),
                _ => None,
            };
            if let Some(ty::Coroutine(d, args)) = at.map(|t| t.kind()) {
                match e {
                    mir::ProjectionElem::Downcast(_, v) => { down = Some(v); continue; }
                    mir::ProjectionElem::Field(f, t) => {
                        let n = args.as_coroutine().upvar_tys().len();
                        let i = match down.take() {
                            None => f.as_usize(),
                            Some(v) => match self.tcx.optimized_mir(*d).coroutine_layout_raw() {
                                Some(l) => n + l.variant_fields[v][f].as_usize(),
                                None => { o.push_str(",[\"other\"]"); continue; }
                            },
                        };
                        let ti = self.ty(t);
                        let _ = write!(o, ",[\"f\",{},{}]", i, ti);
                        continue;
                    }
                    _ => {}
                }
            }
            match e {
                mir::ProjectionElem::Deref => o.push_str(",[\"d\"]"),
                mir::ProjectionElem::Field(f, t) => { let ti = self.ty(t); let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), ti); }
                mir::ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_usize()); }
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end); }
                mir::ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end); }
                mir::ProjectionElem::Downcast(_, v) => { let _ = write!(o, ",[\"v\",{}]", v.as_usize()); }
                _ => o.push_str(",[\"other\"]"),
            }
        }
        o.push(']');
        o
    }
    fn operand(&mut self, op: &mir::Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            mir::Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            mir::Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            mir::Operand::Constant(c) => self.konst(c, env),
            mir::Operand::RuntimeChecks(c) => format!("{{\"rtc\":{}}}", js(&format!("{:?}", c))),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            mir::Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(o, env), n)
            }
            mir::Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(p)),
            mir::Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(p)),
            mir::Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", js(&format!("{:?}", k)), self.place(p)),
            mir::Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let fi = self.ty(from);
                let ti = self.ty(*t);
                if let mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    self.unsize(from, *t, env);
                }
                let mut extra = String::new();
                if let mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _) = k {
                    if let ty::Closure(d, a) = from.kind() {
                        let inst = Instance::resolve_closure(tcx, (*d).into(), a, ty::ClosureKind::FnOnce);
                        if let Some(kk) = self.enqueue(inst, env) { extra = format!(",{}", js(&kk)); }
                    }
                }
                format!("[\"cast\",{},{},{},{}{}]", js(&format!("{:?}", k)), self.operand(o, env), fi, ti, extra)
            }
            mir::Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                let ti = self.ty(t);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", b)), self.operand(&ops.0, env), self.operand(&ops.1, env), ti)
            }
            mir::Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, tcx);
                let ti = self.ty(t);
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", u)), self.operand(o, env), ti)
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                if let Some(f) = self.state_field(t) {
                    let pl = self.place(p);
                    return format!("[\"use\",{{\"cp\":{}{}}}]", &pl[..pl.len() - 1], f);
                }
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p), ti)
            }
            mir::Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.operand(o, env)).collect();
                let ty = r.ty(&body.local_decls, tcx);
                let ti = self.ty(ty);
                match &**k {
                    mir::AggregateKind::Array(_) => format!("[\"agg\",\"arr\",{},0,[{}]]", ti, v.join(",")),
                    mir::AggregateKind::Tuple => format!("[\"agg\",\"tup\",{},0,[{}]]", ti, v.join(",")),
                    mir::AggregateKind::Adt(_, vi, _, _, af) => format!("[\"agg\",\"adt\",{},{},[{}],{}]", ti, vi.as_usize(), v.join(","), af.map(|f| f.as_usize() as i64).unwrap_or(-1)),
                    mir::AggregateKind::Closure(d, a) => {
                        let inst = Instance { def: InstanceKind::Item((*d).into()), args: a };
                        let k = self.enqueue(inst, env);
                        format!("[\"agg\",\"closure\",{},0,[{}],{}]", ti, v.join(","), k.map(|k| js(&k)).unwrap_or("null".into()))
                    }
                    mir::AggregateKind::Coroutine(d, a) => {
                        let inst = Instance { def: InstanceKind::Item(*d), args: a };
                        let k = self.enqueue(inst, env);
                        format!("[\"agg\",\"coroutine\",{},0,[{}],{}]", ti, v.join(","), k.map(|k| js(&k)).unwrap_or("null".into()))
                    }
                    mir::AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{},0,[{}]]", ti, v.join(",")),
                    _ => format!("[\"agg\",\"other\",{},0,[{}]]", ti, v.join(",")),
                }
            }
            mir::Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let (src, dst) = tcx.struct_lockstep_tails_for_codegen_safe(from, to, env);
        if let ty::Dynamic(preds, _) = dst.kind() {
            if matches!(src.kind(), ty::Dynamic(..)) || has_params(src) { return; }
            let Some(pr) = preds.principal() else { return };
            let tp = self.path(pr.def_id());
            let si = self.ty(src);
            let k = format!("{}|{}", si, tp);
            if self.vtables.contains_key(&k) { return; }
            self.vtables.insert(k.clone(), String::new());
            let tr = tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(tcx, src));
            let mut ms = vec![];
            for it in tcx.associated_items(pr.def_id()).in_definition_order() {
                if !matches!(it.kind, ty::AssocKind::Fn { .. }) { continue; }
                if tcx.generics_of(it.def_id).own_requires_monomorphization() { continue; }
                let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                    if (p.index as usize) < tr.args.len() { tr.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
                });
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, it.def_id, args) {
                    let key = self.enqueue(inst, env);
                    ms.push(format!("{}:{}", js(&self.path(it.def_id)), key.map(|k| js(&k)).unwrap_or("null".into())));
                }
            }
            self.vtables.insert(k, format!("{{\"ty\":{},\"trait\":{},\"m\":{{{}}}}}", si, js(&tp), ms.join(",")));
        }
    }
    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "std".into()),
            _ => "?".into(),
        };
        format!("{}:{}", f, l.line)
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, key: &str) {
        let tcx = self.tcx;
        let b0 = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b0.clone())) {
            Ok(b) => b,
            Err(_) => return,
        };
        let d = inst.def_id();
        self.locals = body.local_decls.iter().map(|l| l.ty).collect();
        let mut o = String::new();
        let local = d.is_local();
        let sp = self.line(tcx.def_span(d));
        let exported = d.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(false);
        let targs = self.tys_of_args(inst.args);
        let mut implof = String::new();
        let mut tritem = String::new();
        if let Some(ai) = tcx.opt_associated_item(d) {
            if let Some(imp) = ai.impl_container(tcx) {
                implof = P!(format!("{}", tcx.type_of(imp).instantiate_identity().skip_norm_wip()));
                if let Some(t) = ai.trait_item_def_id() { tritem = self.path(t); }
            }
        }
        let _ = write!(o, "{{\"key\":{},\"path\":{},\"name\":{},\"local\":{},\"span\":{},\"exported\":{},\"nargs\":{},\"targs\":{},\"impl\":{},\"tritem\":{},\"kind\":{}",
            js(key), js(&self.path(d)), js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()), local, js(&sp), exported, body.arg_count, targs, js(&implof), js(&tritem),
            js(&format!("{:?}", tcx.def_kind(d))));
        let mut sa = String::from("null");
        if let Some(x) = body.spread_arg { sa = x.as_usize().to_string(); }
        let _ = write!(o, ",\"spread\":{},\"locals\":[", sa);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 { o.push(','); }
            let t = self.ty(l.ty);
            let _ = write!(o, "{}", t);
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        let mut seen = HashSet::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && seen.insert(p.local) {
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_usize(), js(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            let _ = write!(o, "{{\"cleanup\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            if !bb.is_cleanup {
                for st in &bb.statements {
                    let s = match &st.kind {
                        mir::StatementKind::Assign(a) => {
                            let (p, r) = &**a;
                            format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, &body, env), js(&self.line(st.source_info.span)))
                        }
                        mir::StatementKind::SetDiscriminant { place, variant_index } if matches!(place.ty(&body.local_decls, tcx).ty.kind(), ty::Coroutine(..)) => {
                            let f = self.state_field(place.ty(&body.local_decls, tcx).ty).unwrap();
                            let pl = self.place(place);
                            let ti = self.ty(tcx.types.u32);
                            format!("[\"=\",{}{},[\"use\",{{\"c\":\"int\",\"ty\":{},\"v\":\"{}\"}}],{}]", &pl[..pl.len() - 1], f, ti, variant_index.as_usize(), js(&self.line(st.source_info.span)))
                        }
                        mir::StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()),
                        mir::StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                        mir::StatementKind::Intrinsic(i) => match &**i {
                            mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("[\"copynonoverlapping\",{},{},{}]", self.operand(&c.src, env), self.operand(&c.dst, env), self.operand(&c.count, env)),
                            _ => continue,
                        },
                        _ => continue,
                    };
                    if !first { o.push(','); }
                    first = false;
                    o.push_str(&s);
                }
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let ln = js(&self.line(t.source_info.span));
            if bb.is_cleanup {
                o.push_str("[\"cleanup\"]}");
                continue;
            }
            let s = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let t = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(t);
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr, env), v.join(","), targets.otherwise().as_usize(), ti)
                }
                mir::TerminatorKind::Return => "[\"return\"]".into(),
                mir::TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => "[\"cleanup\"]".into(),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(t);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), ti)
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let f = self.operand(func, env);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dti = self.ty(dt);
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    format!("[\"call\",{},[{}],{},{},{},{},[{}]]", f, a.join(","), self.place(destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1), ln, dti, at.join(","))
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len, env), self.operand(index, env)),
                        mir::AssertKind::Overflow(b, x, y) => format!("[\"overflow\",{},{},{}]", js(&format!("{:?}", b)), self.operand(x, env), self.operand(y, env)),
                        k => format!("[{}]", js(&format!("{:?}", std::mem::discriminant(k)))),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond, env), expected, target.as_usize(), m, ln)
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } | mir::TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                mir::TerminatorKind::Yield { resume, .. } => format!("[\"yield\",{}]", resume.as_usize()),
                _ => "[\"other\"]".into(),
            };
            o.push_str(&s);
            let _ = write!(o, ",\"l\":{}}}", ln);
        }
        o.push_str("]}");
        self.funcs.push(o);
    }
}

trait Esc { fn has_escaping(&self) -> bool; }
impl<'tcx> Esc for Ty<'tcx> {
    fn has_escaping(&self) -> bool { use rustc_middle::ty::TypeVisitableExt; self.has_escaping_bound_vars() }
}
fn has_params<'tcx>(t: Ty<'tcx>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    t.has_param() || t.has_aliases()
}
trait Tails<'tcx> { fn struct_lockstep_tails_for_codegen_safe(self, a: Ty<'tcx>, b: Ty<'tcx>, env: TypingEnv<'tcx>) -> (Ty<'tcx>, Ty<'tcx>); }
impl<'tcx> Tails<'tcx> for TyCtxt<'tcx> {
    fn struct_lockstep_tails_for_codegen_safe(self, a: Ty<'tcx>, b: Ty<'tcx>, _env: TypingEnv<'tcx>) -> (Ty<'tcx>, Ty<'tcx>) {
        fn peel<'tcx>(t: Ty<'tcx>) -> Ty<'tcx> {
            match t.kind() {
                ty::Ref(_, i, _) | ty::RawPtr(i, _) => *i,
                ty::Adt(d, args) if d.is_box() => args.type_at(0),
                ty::Adt(_, args) if args.types().next().is_some() => args.type_at(0),
                _ => t,
            }
        }
        (peel(a), peel(b))
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, types: HashMap::new(), types_out: vec![], adts: HashMap::new(), queued: HashSet::new(), queue: VecDeque::new(), funcs: vec![], vtables: HashMap::new(), statics: HashMap::new(), models: HashMap::new(), locals: vec![] };
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn) { continue; }
            let p = cx.path(d);
            if let Some(n) = p.strip_prefix("crate::vmodels::") { cx.models.insert(n.to_string(), d); }
        }
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            if matches!(tcx.def_kind(d), DefKind::Closure) { continue; }
            let env = TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance { def: InstanceKind::Item(d), args };
            cx.enqueue(inst, env);
        }
        let max: usize = std::env::var("VFACTS_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(20000);
        while let Some((inst, env, k)) = cx.queue.pop_front() {
            if cx.funcs.len() > max { eprintln!("vfacts: instance cap reached"); break; }
            if std::env::var("VFACTS_TRACE").is_ok() { eprintln!("body {}", k); }
            cx.body(inst, env, &k);
        }
        // every local impl of a trait, and every local ADT
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    cx.ty(t);
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(tr.self_ty());
                    let its: Vec<String> = tcx.associated_items(d).in_definition_order().filter(|i| matches!(i.kind, ty::AssocKind::Fn{..})).map(|i| js(&cx.path(i.def_id))).collect();
                    impls.push(format!("{{\"trait\":{},\"traitref\":{},\"self\":{},\"items\":[{}]}}", js(&cx.path(tr.def_id)), js(&P!(format!("{}", tr))), st, its.join(",")));
                }
                _ => {}
            }
        }
        let mut stats = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Static { .. }) { continue; }
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if let Ok(a) = tcx.eval_static_initializer(d) {
                let id = tcx.reserve_and_set_memory_alloc(a);
                let v = cx.cval(mir::ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, t, 0);
                stats.push(format!("{}:{}", js(&cx.path(d)), v));
            }
        }
        stats.sort();
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\n\"statics\":{{{}}},\n\"types\":[\n{}\n],\n", js(&name), stats.join(","), cx.types_out.join(",\n"));
        let mut ks: Vec<_> = cx.adts.iter().collect(); ks.sort();
        let v: Vec<String> = ks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let _ = write!(o, "\"adts\":{{\n{}\n}},\n", v.join(",\n"));
        let mut vs: Vec<_> = cx.vtables.values().filter(|x| !x.is_empty()).cloned().collect(); vs.sort();
        let _ = write!(o, "\"vtables\":[\n{}\n],\n\"impls\":[\n{}\n],\n", vs.join(",\n"), impls.join(",\n"));
        let _ = write!(o, "\"funcs\":[\n{}\n]}}\n", cx.funcs.join(",\n"));
        let f = format!("{}/{}.{}.json", self.out, name, if tcx.crate_types().contains(&rustc_structures::CrateType::Executable) { "bin" } else { "lib" });
        std::fs::write(&f, o).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let out = std::env::var("VFACTS_OUT").unwrap_or_default();
    let is_build = args.iter().any(|a| a == "build_script_build");
    let has_crate = args.iter().any(|a| a == "--crate-name");
    rustc_driver::catch_with_exit_code(move || {
        if out.is_empty() || is_build || !has_crate {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
    })
}
