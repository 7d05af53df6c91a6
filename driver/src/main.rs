//! mirfacts: a rustc driver that compiles exactly as rustc would and, for the
//! crate `wz_reader`, writes the type-checked program (MIR with resolved callees,
//! types, constants, ADTs, impls) as JSON to $MIRFACTS_OUT. It never runs the code.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: Vec<Instance<'tcx>>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
}

/// std bodies that are followed (generic combinators whose meaning is their MIR)
fn extern_ok(p: &str) -> bool {
    const OK: &[&str] = &[
        "::option::",
        "::result::",
        "::iter::traits::iterator::",
        "::iter::adapters::",
        "::iter::traits::collect::",
        "::iter::traits::accum::",
        "::ops::control_flow::",
        "::ops::function::",
        "::ops::try_trait::",
        "::convert::",
        "::cmp::",
        "::bool::",
        "::tuple::",
    ];
    const NO: &[&str] = &["::iter::adapters::copied::", "::iter::adapters::cloned::"];
    OK.iter().any(|x| p.contains(x)) && !NO.iter().any(|x| p.contains(x) && false)
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> String {
        let exp = sp.from_expansion();
        let cs = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(cs.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("[{},{},{}]", q(&f), loc.line, if exp { 1 } else { 0 })
    }
    fn generic_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(q(&format!("{}", c)));
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) | ty::Uint(_) => {
                let signed = matches!(t.kind(), ty::Int(_));
                let bits = t.primitive_size(self.tcx).bits();
                format!("\"k\":\"int\",\"signed\":{},\"bits\":{}", signed, bits)
            }
            ty::Float(_) => format!("\"k\":\"float\",\"bits\":{}", t.primitive_size(self.tcx).bits()),
            ty::Adt(def, args) => {
                let a = self.generic_args(args);
                format!(
                    "\"k\":\"adt\",\"def\":{},\"local\":{},\"args\":{}",
                    q(&self.path(def.did())),
                    def.did().is_local(),
                    a
                )
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(inner);
                format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), x)
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), x)
            }
            ty::Slice(e) => {
                let x = self.ty(e);
                format!("\"k\":\"slice\",\"of\":{}", x)
            }
            ty::Array(e, n) => {
                let x = self.ty(e);
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"of\":{},\"len\":{}", x, n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"of\":[{}]", v.join(","))
            }
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"def\":{}", q(&self.path(d))),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a = self.generic_args(args);
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{}", q(&self.path(d)), a)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Param(_) => "\"k\":\"param\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[i] = format!("{{\"s\":{},{}}}", q(&s), body);
        i
    }
    fn enqueue(&mut self, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> Option<usize> {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        let did = match inst.def {
            ty::InstanceKind::Item(d) => d,
            _ => return None,
        };
        if tcx.is_constructor(did) || tcx.intrinsic(did).is_some() {
            return None;
        }
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return None;
        }
        let mut inst = Instance { def: inst.def, args: tcx.erase_and_anonymize_regions(inst.args) };
        if inst.args.has_param() {
            if !matches!(tcx.def_kind(did), DefKind::Closure) {
                let id = ty::GenericArgs::identity_for_item(tcx, did);
                inst = Instance { def: inst.def, args: tcx.erase_and_anonymize_regions(id) };
            }
        } else {
            inst = match tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(inst)) {
                Ok(i) => i,
                Err(_) => inst,
            };
        }
        if !did.is_local() {
            let p = tcx.def_path(did).to_string_no_crate_verbose();
            let cr = tcx.crate_name(did.krate);
            let cr = cr.as_str();
            if !(cr == "core" || cr == "alloc" || cr == "std") || !extern_ok(&p) || !tcx.is_mir_available(did) {
                return None;
            }
        } else if !tcx.is_mir_available(did) {
            return None;
        }
        if let Some(&i) = self.inst_ids.get(&inst) {
            return Some(i);
        }
        let i = self.insts.len();
        self.insts.push(inst);
        self.inst_ids.insert(inst, i);
        Some(i)
    }
    fn fn_ref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let a = self.generic_args(args);
        let mut res = "null".to_string();
        let mut rargs = "[]".to_string();
        let mut rlocal = false;
        let mut virt = false;
        let mut instid: Option<usize> = None;
        let mut conv = "";
        let mut ctor = String::new();
        let args_e = tcx.erase_and_anonymize_regions(args);
        if tcx.is_constructor(d) {
            ctor = self.ctor(d);
        }
        // calls through the Fn* traits on closures and function items
        let fn_trait = tcx.trait_of_assoc(d).map_or(false, |t| tcx.fn_trait_kind_from_def_id(t).is_some());
        let mut done = false;
        if fn_trait && args_e.len() > 0 {
            if let Some(st) = args_e[0].as_type() {
                match *st.kind() {
                    ty::Closure(cd, cargs) => {
                        instid = self.enqueue(env, Instance::new_raw(cd, cargs));
                        res = q(&self.path(cd));
                        rlocal = cd.is_local();
                        conv = "closure";
                        done = true;
                    }
                    ty::FnDef(fd, fargs) => {
                        let fargs = fargs.skip_binder();
                        conv = "fndef";
                        if tcx.is_constructor(fd) {
                            ctor = self.ctor(fd);
                            res = q(&self.path(fd));
                        } else {
                            let inner = self.fn_ref(env, fd, fargs);
                            return format!("{{\"fn\":{},\"name\":\"call\",\"conv\":\"fndef\",\"inner\":{}}}", q(&self.path(d)), inner);
                        }
                        done = true;
                    }
                    _ => {}
                }
            }
        }
        if !done {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args_e) {
                match inst.def {
                    ty::InstanceKind::Virtual(..) => virt = true,
                    _ => {
                        let rd = inst.def_id();
                        res = q(&self.path(rd));
                        rlocal = rd.is_local();
                        rargs = self.generic_args(inst.args);
                        let mut inst2 = inst;
                        // prefer the default bodies of Iterator's consumers over specialised overrides
                        if let Some(t) = tcx.trait_of_assoc(d) {
                            if tcx.is_diagnostic_item(rustc_span::sym::Iterator, t) && rd != d && !rd.is_local() {
                                let n = tcx.item_name(d);
                                let ad = tcx.associated_item(d);
                                if ad.defaultness(tcx).has_value() && n.as_str() != "next" && n.as_str() != "size_hint" {
                                    inst2 = Instance::new_raw(d, args_e);
                                }
                            }
                        }
                        if !(tcx.trait_of_assoc(rd).is_some() && !tcx.is_mir_available(rd)) {
                            instid = self.enqueue(env, inst2);
                        }
                    }
                }
            }
        }
        let assoc_trait = tcx.trait_of_assoc(d).map(|t| q(&self.path(t))).unwrap_or("null".into());
        let name = tcx.opt_item_name(d).map(|s| q(s.as_str())).unwrap_or("null".into());
        // iterator consumers written natively in std: say how to step their argument
        let mut iter = String::new();
        if let Some(t) = tcx.trait_of_assoc(d) {
            let tp = self.path(t);
            if tp.ends_with("FromIterator") || tp.ends_with("Extend") {
                for ga in args_e.iter().skip(1) {
                    if let Some(it) = ga.as_type() {
                        iter = self.iter_refs(env, it);
                    }
                }
                if tp.ends_with("FromIterator") {
                    if let Some(it) = args_e.get(2).and_then(|x| x.as_type()) {
                        iter = self.iter_refs(env, it);
                    }
                }
            }
        }
        if d.is_local() || !name.contains("new") {
            if !fn_trait && iter.is_empty() {
                let n = name.trim_matches('"').to_string();
                if n == "par_for_each" {
                    iter = String::new();
                }
            }
        }
        let ids = instid.map(|i| i.to_string()).unwrap_or("null".into());
        let mut out = format!(
            "{{\"fn\":{},\"name\":{},\"args\":{},\"res\":{},\"rargs\":{},\"rlocal\":{},\"virt\":{},\"trait\":{},\"local\":{},\"inst\":{}",
            q(&self.path(d)), name, a, res, rargs, rlocal, virt, assoc_trait, d.is_local(), ids
        );
        if !conv.is_empty() {
            let _ = write!(out, ",\"conv\":{}", q(conv));
        }
        if !ctor.is_empty() {
            let _ = write!(out, ",\"ctor\":{}", ctor);
        }
        out.push_str(&iter);
        out.push('}');
        out
    }
    fn iter_refs(&mut self, env: TypingEnv<'tcx>, it: Ty<'tcx>) -> String {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        if it.has_param() {
            return String::new();
        }
        let into = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator);
        let iterator = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
        let (Some(into), Some(iterator)) = (into, iterator) else { return String::new() };
        let mut out = String::new();
        let into_fn = tcx.associated_items(into).in_definition_order().find(|i| i.name().as_str() == "into_iter");
        let into_ty = tcx.associated_items(into).in_definition_order().find(|i| i.name().as_str() == "IntoIter");
        let next_fn = tcx.associated_items(iterator).in_definition_order().find(|i| i.name().as_str() == "next");
        if let (Some(f), Some(t), Some(n)) = (into_fn, into_ty, next_fn) {
            let args = tcx.mk_args(&[it.into()]);
            let r = self.fn_ref(env, f.def_id, args);
            let _ = write!(out, ",\"into_iter\":{}", r);
            let proj = Ty::new_projection(tcx, ty::IsRigid::No, t.def_id, args);
            if let Ok(ity) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(proj)) {
                let r = self.fn_ref(env, n.def_id, tcx.mk_args(&[ity.into()]));
                let _ = write!(out, ",\"next\":{}", r);
            }
        }
        out
    }
    /// concrete arguments for a generic function whose parameters are only bounded by AsRef
    fn witness_args(&mut self, did: DefId) -> Option<ty::GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        if !tcx.generics_of(did).requires_monomorphization(tcx) {
            return None;
        }
        let preds: Vec<_> = tcx.param_env(did).caller_bounds().collect();
        let mut ok = true;
        let args = ty::GenericArgs::for_item(tcx, did, |param, _| match param.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => {
                let pt = Ty::new_param(tcx, param.index, param.name);
                for p in preds.iter() {
                    let s = with_no_trimmed_paths!(format!("{:?}", p));
                    let n = format!("<{} as", param.name);
                    let _ = pt;
                    if s.contains(&n) && s.contains("AsRef<std::path::Path>") {
                        return Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, tcx.types.str_).into();
                    }
                    if s.contains(&n) && s.contains("AsRef<[u8]>") {
                        for id in tcx.hir_crate_items(()).definitions() {
                            if matches!(tcx.def_kind(id.to_def_id()), DefKind::TyAlias)
                                && tcx.item_name(id.to_def_id()).as_str() == "WzReader"
                            {
                                let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_normalization();
                                if let ty::Adt(_, a) = t.kind() {
                                    return a[0];
                                }
                            }
                        }
                    }
                    if s.contains(&n) && s.contains("Into<object::WzObjectType>") {
                        for id in tcx.hir_crate_items(()).definitions() {
                            if matches!(tcx.def_kind(id.to_def_id()), DefKind::Enum)
                                && tcx.item_name(id.to_def_id()).as_str() == "WzObjectType"
                            {
                                return tcx.type_of(id.to_def_id()).instantiate_identity().skip_normalization().into();
                            }
                        }
                    }
                }
                ok = false;
                tcx.types.unit.into()
            }
            ty::GenericParamDefKind::Const { .. } => {
                ok = false;
                tcx.types.unit.into()
            }
        });
        if ok { Some(args) } else { None }
    }
    fn ctor(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let p = tcx.parent(d);
        let (adt, vi) = match tcx.def_kind(p) {
            DefKind::Variant => {
                let ad = tcx.adt_def(tcx.parent(p));
                let vi = ad.variant_index_with_id(p);
                (ad, vi)
            }
            _ => (tcx.adt_def(p), rustc_abi::VariantIdx::from_usize(0)),
        };
        let vd = adt.variant(vi);
        let names: Vec<String> = vd.fields.iter().map(|f| q(f.name.as_str())).collect();
        format!("[{},{},{},[{}]]", q(&self.path(adt.did())), vi.as_usize(), q(vd.name.as_str()), names.join(","))
    }
    fn scalar_int(&self, s: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let size = s.size();
        match t.kind() {
            ty::Int(_) => s.to_int(size).to_string(),
            ty::Bool => (s.to_uint(size) != 0).to_string(),
            ty::Float(_) => {
                let b = s.to_uint(size);
                if size.bits() == 32 {
                    let f = f32::from_bits(b as u32);
                    if f.is_finite() { format!("{{\"f\":{:?}}}", f) } else { format!("{{\"f\":\"{:?}\"}}", f) }
                } else {
                    let f = f64::from_bits(b as u64);
                    if f.is_finite() { format!("{{\"f\":{:?}}}", f) } else { format!("{{\"f\":\"{:?}\"}}", f) }
                }
            }
            ty::Char => format!("{{\"char\":{}}}", s.to_uint(size)),
            _ => s.to_uint(size).to_string(),
        }
    }
    /// decode an evaluated constant into a JSON tree
    fn cval(&mut self, env: TypingEnv<'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 8 {
            return "{\"deep\":true}".into();
        }
        let tcx = self.tcx;
        match *t.kind() {
            ty::FnDef(d, args) => return self.fn_ref(env, d, args.skip_binder()),
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char => {
                if let Some(s) = v.try_to_scalar_int() {
                    return self.scalar_int(s, t);
                }
                // an integer inside memory
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let (Some(mir::interpret::GlobalAlloc::Memory(a)), Ok(l)) =
                        (tcx.try_get_global_alloc(alloc_id), tcx.layout_of(env.as_query_input(t)))
                    {
                        let st = offset.bytes_usize();
                        let n = l.size.bytes_usize();
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n);
                        let mut x = 0u128;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        if let Some(si) = ty::ScalarInt::try_from_uint(x, l.size) {
                            return self.scalar_int(si, t);
                        }
                    }
                }
                return "{\"opaque\":true}".into();
            }
            ty::Ref(_, inner, _) => {
                if let ty::Str = inner.kind() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("{{\"str\":{}}}", q(&String::from_utf8_lossy(b)));
                    }
                }
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let x: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                            return format!("{{\"bytes\":[{}]}}", x.join(","));
                        }
                    }
                }
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(mir::interpret::GlobalAlloc::Static(d)) => {
                            return format!("{{\"static\":{}}}", q(&self.path(d)));
                        }
                        Some(mir::interpret::GlobalAlloc::Memory(_)) => {
                            if inner.is_sized(tcx, env) {
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let x = self.cval(env, iv, inner, depth + 1);
                                return format!("{{\"ref\":{}}}", x);
                            }
                        }
                        _ => {}
                    }
                }
                // a reference stored in memory
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        let a = a.inner();
                        let st = offset.bytes_usize();
                        let word = |at: usize| {
                            let mut x = 0u64;
                            for (i, y) in a.inspect_with_uninit_and_ptr_outside_interpreter(at..at + 8).iter().enumerate() {
                                x |= (*y as u64) << (8 * i);
                            }
                            x
                        };
                        if let Some(prov) = a.provenance().ptrs().get(&offset) {
                            let to = prov.alloc_id();
                            let off = rustc_abi::Size::from_bytes(word(st));
                            match tcx.try_get_global_alloc(to) {
                                Some(mir::interpret::GlobalAlloc::Static(d)) => {
                                    return format!("{{\"static\":{}}}", q(&self.path(d)));
                                }
                                Some(mir::interpret::GlobalAlloc::Memory(m)) => {
                                    if inner.is_sized(tcx, env) {
                                        let x = self.cval(env, ConstValue::Indirect { alloc_id: to, offset: off }, inner, depth + 1);
                                        return format!("{{\"ref\":{}}}", x);
                                    }
                                    let n = word(st + 8);
                                    if let ty::Str = inner.kind() {
                                        let o = off.bytes_usize();
                                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                        return format!("{{\"str\":{}}}", q(&String::from_utf8_lossy(b)));
                                    }
                                    if let ty::Slice(e) = inner.kind() {
                                        let at = Ty::new_array(tcx, *e, n);
                                        let x = self.cval(env, ConstValue::Indirect { alloc_id: to, offset: off }, at, depth + 1);
                                        return format!("{{\"ref\":{}}}", x);
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                }
                if let ConstValue::Slice { alloc_id, meta } = v {
                    if let ty::Slice(e) = inner.kind() {
                        let at = Ty::new_array(tcx, *e, meta);
                        let iv = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO };
                        let x = self.cval(env, iv, at, depth + 1);
                        return format!("{{\"ref\":{}}}", x);
                    }
                }
                return "{\"opaque\":true}".into();
            }
            ty::FnPtr(..) => {
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(mir::interpret::GlobalAlloc::Function { instance }) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        return format!("{{\"fnptr\":{}}}", q(&self.path(instance.def_id())));
                    }
                }
                return "{\"opaque\":true}".into();
            }
            ty::RawPtr(..) => {
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        return format!("{{\"static\":{}}}", q(&self.path(d)));
                    }
                }
                return "{\"opaque\":true}".into();
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return "{\"opaque\":true}".into();
                    }
                }
                if let ty::Array(e, n) = t.kind() {
                    if *e == tcx.types.u8 {
                        if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (v, n.try_to_target_usize(tcx)) {
                            if let Some(mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                                let st = offset.bytes_usize();
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                                let x: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                                return format!("{{\"arr\":[{}]}}", x.join(","));
                            }
                        }
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in dc.fields.iter() {
                        fs.push(self.cval(env, *fv, *ft, depth + 1));
                    }
                    match t.kind() {
                        ty::Adt(d, _) => {
                            let (vi, vn, names) = match dc.variant {
                                Some(vi) if d.variants().len() > vi.as_usize() => {
                                    let vd = d.variant(vi);
                                    (
                                        vi.as_usize(),
                                        vd.name.to_string(),
                                        vd.fields.iter().map(|f| q(f.name.as_str())).collect::<Vec<_>>(),
                                    )
                                }
                                _ => (0, String::new(), vec![]),
                            };
                            return format!(
                                "{{\"adt\":{},\"vi\":{},\"variant\":{},\"names\":[{}],\"fields\":[{}]}}",
                                q(&self.path(d.did())), vi, q(&vn), names.join(","), fs.join(",")
                            );
                        }
                        ty::Tuple(_) => return format!("{{\"tuple\":[{}]}}", fs.join(",")),
                        _ => return format!("{{\"arr\":[{}]}}", fs.join(",")),
                    }
                }
                if let ConstValue::ZeroSized = v {
                    return "{\"zst\":true}".into();
                }
                return "{\"opaque\":true}".into();
            }
            ty::Closure(d, _) => return format!("{{\"closure\":{}}}", q(&self.path(d))),
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return "{\"zst\":true}".into();
        }
        "{\"opaque\":true}".into()
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            let f = self.fn_ref(env, d, args.skip_binder());
            return format!("{{\"ty\":{},\"v\":{}}}", ti, f);
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c {
            let _ = write!(extra, ",\"src\":{}", q(&self.path(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(extra, ",\"promoted\":{}", p.as_usize());
            }
        }
        let generic = {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_param()
        };
        let v = if generic {
            "{\"generic\":true}".to_string()
        } else {
            match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                Ok(v) => self.cval(env, v, t, 0),
                Err(_) => "{\"uneval\":true}".to_string(),
            }
        };
        format!("{{\"ty\":{},\"v\":{}{}}}", ti, v, extra)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) if !d.is_union() || true => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                            if d.variants().len() > vi.as_usize() {
                                d.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{},{}]", f.as_usize(), q(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, vi) => format!(
                    "[\"dc\",{},{}]",
                    vi.as_usize(),
                    q(&n.map(|x| x.to_string()).unwrap_or_default())
                ),
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        format!("[{},[{}],{}]", p.local.as_usize(), out.join(","), t)
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(env, &c.const_)),
            _ => "[\"rc\"]".to_string(),
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(env, body, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(body, p)),
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ks = ks.split('(').next().unwrap_or("").to_string();
                let ks = if let CastKind::PointerCoercion(pc, _) = k { format!("Ptr{:?}", pc) } else { ks };
                let from = o.ty(&body.local_decls, self.tcx);
                let f = self.ty(from);
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", q(&ks), self.operand(env, body, o), f, ti)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    q(&format!("{:?}", op)),
                    self.operand(env, body, &ab.0),
                    self.operand(env, body, &ab.1),
                    ti
                )
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                format!("[\"un\",{},{},{}]", q(&format!("{:?}", op)), self.operand(env, body, a), ti)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let ad = self.tcx.adt_def(*d);
                        let vd = ad.variant(*vi);
                        let names: Vec<String> = vd.fields.iter().map(|f| q(f.name.as_str())).collect();
                        format!(
                            "[\"adt\",{},{},{},[{}],{}]",
                            q(&self.path(*d)),
                            vi.as_usize(),
                            q(vd.name.as_str()),
                            names.join(","),
                            active.map(|a| a.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, cargs) => {
                        let cid = self.enqueue(env, Instance::new_raw(*d, cargs));
                        let cid = cid.map(|i| i.to_string()).unwrap_or("null".into());
                        let caps: Vec<String> = if let Some(ld) = d.as_local() {
                            self.tcx
                                .closure_captures(ld)
                                .iter()
                                .map(|c| q(&format!("{}", c.var_ident)))
                                .collect()
                        } else {
                            vec![]
                        };
                        format!("[\"closure\",{},[{}],{}]", q(&self.path(*d)), caps.join(","), cid)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            _ => "[\"other\"]".to_string(),
        }
    }
    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            _ => "null".into(),
        }
    }
    fn body(&mut self, did: DefId, env: TypingEnv<'tcx>, body: &Body<'tcx>, name: String, kind: &str, extra: &str) -> String {
        let mut s = String::new();
        let _ = write!(s, "{{{}\"path\":{},\"kind\":{},\"span\":{},\"argc\":{}", extra, q(&name), q(kind), self.span(body.span), body.arg_count);
        if kind != "promoted" {
            let dk = self.tcx.def_kind(did);
            let vis = match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::Static { .. } => {
                    self.tcx.visibility(did).is_public()
                }
                _ => false,
            };
            let _ = write!(s, ",\"dk\":{},\"pub\":{}", q(&format!("{:?}", dk)), vis);
            let parent = self.tcx.opt_parent(did);
            if let Some(p) = parent {
                let _ = write!(s, ",\"parent\":{}", q(&self.path(p)));
                if let DefKind::Impl { .. } = self.tcx.def_kind(p) {
                    let st = self.tcx.type_of(p).instantiate_identity().skip_normalization();
                    let sti = self.ty(st);
                    let _ = write!(s, ",\"impl_self\":{}", sti);
                    if let Some(tr) = self.tcx.impl_opt_trait_ref(p) {
                        let tr = tr.instantiate_identity().skip_normalization();
                        let ta = self.generic_args(tr.args);
                        let _ = write!(s, ",\"impl_trait\":{},\"impl_trait_args\":{}", q(&self.path(tr.def_id)), ta);
                    }
                }
                if let DefKind::Trait = self.tcx.def_kind(p) {
                    let _ = write!(s, ",\"in_trait\":{}", q(&self.path(p)));
                }
            }
            let item = self.tcx.opt_item_name(did).map(|s| q(s.as_str())).unwrap_or("null".into());
            let _ = write!(s, ",\"name\":{}", item);
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let sig = self.tcx.fn_sig(did).instantiate_identity().skip_normalization().skip_binder();
                let _ = write!(s, ",\"unsafe_fn\":{}", !sig.safety().is_safe());
                if let Some(l) = did.as_local() {
                    let _ = write!(s, ",\"reach\":{}", self.tcx.effective_visibilities(()).is_reachable(l));
                }
            }
        }
        // names
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upv.push(format!("[{},{}]", q(v.name.as_str()), self.place(body, &p)));
                }
            }
        }
        let _ = write!(s, ",\"upv\":[{}]", upv.join(","));
        s.push_str(",\"locals\":[");
        for (i, d) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                s.push(',');
            }
            let t = self.ty(d.ty);
            match names.get(&i.as_usize()) {
                Some(n) => {
                    let _ = write!(s, "[{},{}]", t, q(n));
                }
                None => {
                    let _ = write!(s, "[{}]", t);
                }
            }
        }
        s.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &b.statements {
                let x = match &st.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(body, &pr.0);
                        let r = self.rvalue(env, body, &pr.1);
                        format!("[\"=\",{},{},{}]", p, r, self.span(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(body, place), variant_index.as_usize())
                    }
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{}]", self.operand(env, body, o)),
                        _ => "[\"copynonoverlapping\"]".into(),
                    },
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&x);
            }
            s.push_str("],\"t\":");
            let term = b.terminator();
            let sp = self.span(term.source_info.span);
            let x = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(dt);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let bits = if dt.is_bool() { 8 } else { match dt.kind() { ty::Int(_) | ty::Uint(_) => dt.primitive_size(self.tcx).bits(), _ => 32 } };
                    let tv: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if signed {
                                let sh = 128 - bits;
                                (((v << sh) as i128) >> sh).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[{},{}]", vs, b.as_usize())
                        })
                        .collect();
                    format!(
                        "[\"switch\",{},[{}],{},{},{}]",
                        self.operand(env, body, discr),
                        tv.join(","),
                        targets.otherwise().as_usize(),
                        ti,
                        sp
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"terminate\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    format!("[\"drop\",{},{},{},{}]", self.place(body, place), target.as_usize(), Self::unwind(unwind), sp)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(env, body, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, body, &x.node)).collect();
                    let d = self.place(body, destination);
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        f,
                        a.join(","),
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        Self::unwind(unwind),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(env, body, len), self.operand(env, body, index)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(env, body, a), self.operand(env, body, b)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(env, body, a)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(env, body, a)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(env, body, a)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},[{}],{},{},{}]",
                        self.operand(env, body, cond),
                        expected,
                        q(&k),
                        ops.join(","),
                        target.as_usize(),
                        Self::unwind(unwind),
                        sp
                    )
                }
                _ => "[\"other\"]".into(),
            };
            s.push_str(&x);
            if b.is_cleanup {
                s.push_str(",\"cl\":1");
            }
            s.push('}');
        }
        s.push_str("]}");
        s
    }
    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            match dk {
                DefKind::Fn | DefKind::AssocFn => {
                    let id = ty::GenericArgs::identity_for_item(tcx, did);
                    let inst = Instance::new_raw(did, tcx.erase_and_anonymize_regions(id));
                    self.enqueue(TypingEnv::post_analysis(tcx, did), inst);
                    if let Some(args) = self.witness_args(did) {
                        self.enqueue(TypingEnv::fully_monomorphized(), Instance::new_raw(did, args));
                    }
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    let name = self.path(did);
                    let b = tcx.mir_for_ctfe(did);
                    let env = TypingEnv::post_analysis(tcx, did);
                    let x = self.body(did, env, b, name.clone(), "const", "");
                    bodies.push(x);
                    for (pi, pb) in tcx.promoted_mir(did).iter_enumerated() {
                        let x = self.body(did, env, pb, format!("{}::{{promoted#{}}}", name, pi.as_usize()), "promoted", "");
                        bodies.push(x);
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let ti = self.ty(t);
                    let v = if matches!(dk, DefKind::Static { .. }) {
                        match tcx.eval_static_initializer(did) {
                            // an immutable static without interior mutability is its initial value for ever
                            Ok(a) if !tcx.is_mutable_static(did) && t.is_freeze(tcx, env) => {
                                let aid = tcx.reserve_and_set_memory_alloc(a);
                                let v = rustc_middle::mir::ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO };
                                self.cval(env, v, t, 0)
                            }
                            Ok(_) => "{\"staticmem\":true}".to_string(),
                            Err(_) => "null".to_string(),
                        }
                    } else if tcx.generics_of(did).requires_monomorphization(tcx) {
                        "null".to_string()
                    } else {
                        match tcx.const_eval_poly(did) {
                            Ok(v) => self.cval(env, v, t, 0),
                            Err(_) => "null".to_string(),
                        }
                    };
                    consts.push(format!("{{\"path\":{},\"ty\":{},\"v\":{},\"span\":{}}}", q(&name), ti, v, self.span(tcx.def_span(did))));
                }
                _ => {}
            }
        }
        let mut k = 0;
        while k < self.insts.len() {
            use rustc_middle::ty::TypeVisitableExt;
            let inst = self.insts[k];
            let did = inst.def_id();
            let generic = inst.args.has_param();
            let env = if generic { TypingEnv::post_analysis(tcx, did) } else { TypingEnv::fully_monomorphized() };
            let b = tcx.optimized_mir(did).clone();
            let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b)) {
                Ok(b) => b,
                Err(_) => tcx.optimized_mir(did).clone(),
            };
            let a = self.generic_args(inst.args);
            let name = self.path(did);
            let kd = if matches!(tcx.def_kind(did), DefKind::Closure) { "closure" } else { "fn" };
            let extra = format!("\"id\":{},\"local\":{},\"generic\":{},\"iargs\":{},", k, did.is_local(), generic, a);
            let x = self.body(did, env, &b, name, kd, &extra);
            bodies.push(x);
            k += 1;
        }
        // ADTs, impls
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(did);
                    let mut vs = vec![];
                    for (vi, vd) in ad.variants().iter_enumerated() {
                        let discr = if ad.is_enum() { ad.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let mut fs = vec![];
                        for f in vd.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                            let t = self.ty(ft);
                            fs.push(format!("[{},{},{}]", q(f.name.as_str()), t, f.vis.is_public()));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", q(vd.name.as_str()), discr, fs.join(",")));
                    }
                    let st = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let env = TypingEnv::post_analysis(tcx, did);
                    use rustc_middle::ty::TypeVisitableExt;
                    let (send, sync) = if st.has_param() {
                        // as shareable as its type arguments: judge with a plain one
                        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            ty::GenericParamDefKind::Type { .. } => tcx.types.u8.into(),
                            ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 1).into(),
                        });
                        let x = tcx.type_of(did).instantiate(tcx, args).skip_normalization();
                        let env = TypingEnv::fully_monomorphized();
                        (self.auto_trait(env, x, "Send"), self.auto_trait(env, x, "Sync"))
                    } else {
                        (self.auto_trait(env, st, "Send"), self.auto_trait(env, st, "Sync"))
                    };
                    let reach = tcx.effective_visibilities(()).is_reachable(did.expect_local());
                    let ti = self.ty(st);
                    adts.push(format!(
                        "{{\"path\":{},\"ty\":{},\"enum\":{},\"variants\":[{}],\"send\":{},\"sync\":{},\"pub\":{},\"reach\":{},\"span\":{}}}",
                        q(&self.path(did)), ti, ad.is_enum(), vs.join(","), send, sync, tcx.visibility(did).is_public(), reach,
                        self.span(tcx.def_span(did))
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let sti = self.ty(st);
                    let (tr, ta) = match tcx.impl_opt_trait_ref(did) {
                        Some(t) => {
                            let t = t.instantiate_identity().skip_normalization();
                            (q(&self.path(t.def_id)), self.generic_args(t.args))
                        }
                        None => ("null".into(), "[]".into()),
                    };
                    let items: Vec<String> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| q(&self.path(i.def_id)))
                        .collect();
                    let uns = match tcx.impl_opt_trait_ref(did) {
                        Some(_) => !tcx.impl_trait_header(did).safety.is_safe(),
                        None => false,
                    };
                    impls.push(format!(
                        "{{\"self\":{},\"trait\":{},\"targs\":{},\"items\":[{}],\"unsafe\":{},\"span\":{}}}",
                        sti, tr, ta, items.join(","), uns, self.span(tcx.def_span(did))
                    ));
                }
                _ => {}
            }
        }
        format!(
            "{{\"crate\":{},\"bodies\":[\n{}\n],\"consts\":[\n{}\n],\"adts\":[\n{}\n],\"impls\":[\n{}\n],\"unsafe\":[\n{}\n],\"types\":[\n{}\n]}}",
            q(tcx.crate_name(LOCAL_CRATE).as_str()),
            bodies.join(",\n"),
            consts.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            self.unsafe_ops().join(",\n"),
            self.ty_out.join(",\n")
        )
    }
    /// unsafe blocks, functions and operations written in the crate
    fn unsafe_ops(&self) -> Vec<String> {
        use rustc_hir::intravisit::{self, Visitor};
        use rustc_hir::{Block, BlockCheckMode, Expr, ExprKind, UnOp, UnsafeSource};
        struct V<'a, 'tcx> {
            cx: &'a Cx<'tcx>,
            owner: String,
            tr: &'tcx ty::TypeckResults<'tcx>,
            out: Vec<String>,
        }
        impl<'a, 'tcx> V<'a, 'tcx> {
            fn put(&mut self, kind: &str, what: &str, sp: Span) {
                if !sp.in_external_macro(self.cx.tcx.sess.source_map()) {
                    let x = format!("[{},{},{},{}]", q(kind), q(what), q(&self.owner), self.cx.span(sp));
                    self.out.push(x);
                }
            }
            fn call(&mut self, d: DefId, sp: Span) {
                if matches!(self.cx.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                    && !self.cx.tcx.fn_sig(d).instantiate_identity().skip_normalization().skip_binder().safety().is_safe()
                {
                    let n = self.cx.path(d);
                    self.put("call", &n, sp);
                }
            }
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            fn visit_block(&mut self, b: &'tcx Block<'tcx>) {
                if let BlockCheckMode::UnsafeBlock(UnsafeSource::UserProvided) = b.rules {
                    self.put("block", "", b.span);
                }
                intravisit::walk_block(self, b);
            }
            fn visit_expr(&mut self, e: &'tcx Expr<'tcx>) {
                match e.kind {
                    ExprKind::Call(f, _) => match self.tr.expr_ty(f).kind() {
                        ty::FnDef(d, _) => self.call(*d, e.span),
                        ty::FnPtr(_, h) if !h.safety().is_safe() => self.put("call", "a function pointer", e.span),
                        _ => {}
                    },
                    ExprKind::MethodCall(..) => {
                        if let Some(d) = self.tr.type_dependent_def_id(e.hir_id) {
                            self.call(d, e.span)
                        }
                    }
                    ExprKind::Unary(UnOp::Deref, x) if self.tr.expr_ty(x).is_raw_ptr() => self.put("deref", "a raw pointer", e.span),
                    ExprKind::InlineAsm(_) => self.put("asm", "", e.span),
                    ExprKind::Field(x, _) if self.tr.expr_ty_adjusted(x).is_union() => self.put("union", "", e.span),
                    _ => {}
                }
                intravisit::walk_expr(self, e);
            }
        }
        let tcx = self.tcx;
        let mut out = vec![];
        for ld in tcx.hir_body_owners() {
            let body = tcx.hir_body_owned_by(ld);
            let mut v = V { cx: self, owner: self.path(ld.to_def_id()), tr: tcx.typeck(ld), out: vec![] };
            v.visit_body(body);
            out.extend(v.out);
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                && !tcx.fn_sig(d).instantiate_identity().skip_normalization().skip_binder().safety().is_safe()
            {
                out.push(format!("[{},{},{},{}]", q("fn"), q(""), q(&self.path(d)), self.span(tcx.def_span(d))));
            }
            if matches!(tcx.def_kind(d), DefKind::Static { .. }) && tcx.is_mutable_static(d) {
                out.push(format!("[{},{},{},{}]", q("static mut"), q(""), q(&self.path(d)), self.span(tcx.def_span(d))));
            }
        }
        out
    }
    fn auto_trait(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>, which: &str) -> String {
        use rustc_span::sym;
        let tcx = self.tcx;
        let d = match which {
            "Send" => tcx.get_diagnostic_item(sym::Send),
            _ => tcx.lang_items().sync_trait(),
        };
        match d {
            Some(d) => {
                let _ = env;
                let r = tcx.type_implements_trait_shim(d, t, env);
                r.to_string()
            }
            None => "null".into(),
        }
    }
}

trait Shim<'tcx> {
    fn type_implements_trait_shim(&self, d: DefId, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> bool;
}
impl<'tcx> Shim<'tcx> for TyCtxt<'tcx> {
    fn type_implements_trait_shim(&self, d: DefId, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> bool {
        extern crate rustc_infer;
        extern crate rustc_trait_selection;
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, penv) = self.infer_ctxt().build_with_typing_env(env);
        infcx.type_implements_trait(d, [t], penv).must_apply_modulo_regions()
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("MIRFACTS_OUT") {
            if tcx.crate_name(LOCAL_CRATE).as_str() == "wz_reader" {
                let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], insts: vec![], inst_ids: HashMap::new() };
                let s = with_no_trimmed_paths!(cx.run());
                std::fs::write(&out, s).expect("write facts");
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "wz_reader");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
