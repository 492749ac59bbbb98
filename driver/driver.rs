// Dumps monomorphic MIR (types resolved, trait calls resolved, constants evaluated) as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER for /repo and directly on the harness crate.
// Env: VDUMP_DIR  output directory
//      VDUMP_ALLOW file with path prefixes of core/alloc/std items whose bodies are dumped too
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, s) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}
fn obj(fields: &[(&str, String)]) -> String {
    let mut o = String::from("{");
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "\"{}\":{}", k, v);
    }
    o.push('}');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
    allow: Vec<String>,
    dyn_impls: BTreeMap<(usize, String), usize>,
    drop_impls: BTreeMap<usize, usize>,
    statics: BTreeMap<String, String>,
    files: BTreeMap<String, usize>,
    models: HashMap<String, DefId>,
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

const WS: [&str; 4] = ["volaris_crypto", "volaris_tools", "volaris_cli", "vharness"];

impl<'tcx> Cx<'tcx> {
    fn te(&self) -> ty::TypingEnv<'tcx> {
        ty::TypingEnv::fully_monomorphized()
    }
    fn is_ws(&self, d: DefId) -> bool {
        WS.contains(&self.tcx.crate_name(d.krate).as_str())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(String::new());
        let tcx = self.tcx;
        let name = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)));
        let mut f: Vec<(&str, String)> = vec![("s", esc(&name))];
        match t.kind() {
            ty::Bool => f.push(("k", esc("bool"))),
            ty::Char => f.push(("k", esc("char"))),
            ty::Int(i) => {
                f.push(("k", esc("int")));
                f.push(("bits", i.bit_width().unwrap_or(64).to_string()));
                f.push(("signed", "true".into()));
            }
            ty::Uint(i) => {
                f.push(("k", esc("int")));
                f.push(("bits", i.bit_width().unwrap_or(64).to_string()));
                f.push(("signed", "false".into()));
            }
            ty::Float(_) => f.push(("k", esc("float"))),
            ty::Str => f.push(("k", esc("str"))),
            ty::Never => f.push(("k", esc("never"))),
            ty::Adt(def, args) => {
                f.push(("k", esc("adt")));
                f.push(("path", esc(&path_of(tcx, def.did()))));
                f.push(("crate", esc(tcx.crate_name(def.did().krate).as_str())));
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                f.push(("adt", esc(kind)));
                let targs: Vec<Ty<'tcx>> = args.types().collect();
                let a: Vec<String> = targs.iter().map(|x| self.ty(*x).to_string()).collect();
                f.push(("args", arr(a)));
                let mut vs = vec![];
                // full field types only where they can matter, to keep the table small
                let full = self.is_ws(def.did()) || {
                    let p = path_of(tcx, def.did());
                    def.is_enum() || p.starts_with("core::") || p.starts_with("aead::") || p.starts_with("alloc::boxed")
                        || p.starts_with("alloc::borrow")
                };
                let discrs: Vec<(rustc_abi::VariantIdx, ty::util::Discr<'tcx>)> =
                    if def.is_enum() { def.discriminants(tcx).collect() } else { vec![] };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for fd in v.fields.iter() {
                        let tys = if full {
                            let ft = fd.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(self.te(), ft);
                            match ft {
                                Ok(x) => self.ty(x).to_string(),
                                Err(_) => "null".into(),
                            }
                        } else {
                            "null".into()
                        };
                        fs.push(format!("[{},{}]", esc(fd.name.as_str()), tys));
                    }
                    let d = discrs.iter().find(|(i, _)| *i == vi).map(|(_, d)| d.val.to_string()).unwrap_or("0".into());
                    vs.push(obj(&[("name", esc(v.name.as_str())), ("discr", d), ("fields", arr(fs))]));
                }
                f.push(("variants", arr(vs)));
                // user-defined Drop in the workspace
                if let Some(dtor) = tcx.adt_destructor(def.did()) {
                    f.push(("has_drop", "true".into()));
                    if self.is_ws(def.did()) {
                        let inst = Instance::try_resolve(tcx, self.te(), dtor.did, args);
                        if let Ok(Some(inst)) = inst {
                            let ii = self.inst(inst);
                            self.drop_impls.insert(id, ii);
                        }
                    }
                }
            }
            ty::Array(e, n) => {
                f.push(("k", esc("array")));
                let e = self.ty(*e);
                f.push(("elem", e.to_string()));
                f.push(("len", n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())));
            }
            ty::Slice(e) => {
                f.push(("k", esc("slice")));
                let e = self.ty(*e);
                f.push(("elem", e.to_string()));
            }
            ty::RawPtr(e, m) | ty::Ref(_, e, m) => {
                f.push(("k", esc(if matches!(t.kind(), ty::RawPtr(..)) { "ptr" } else { "ref" })));
                let e = self.ty(*e);
                f.push(("elem", e.to_string()));
                f.push(("mut", m.is_mut().to_string()));
            }
            ty::Tuple(ts) => {
                f.push(("k", esc("tuple")));
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                f.push(("args", arr(a)));
            }
            ty::FnDef(d, args) => {
                f.push(("k", esc("fndef")));
                f.push(("path", esc(&path_of(tcx, *d))));
                let args = args.skip_binder();
                if let Some(i) = self.resolve(*d, args) {
                    f.push(("inst", i.to_string()));
                }
                if let DefKind::Ctor(..) = tcx.def_kind(*d) {
                    let vd = tcx.parent(*d);
                    let (adt_did, vidx) = match tcx.def_kind(vd) {
                        DefKind::Variant => {
                            let ad = tcx.parent(vd);
                            (ad, tcx.adt_def(ad).variant_index_with_id(vd).as_u32())
                        }
                        _ => (vd, 0),
                    };
                    let at = Ty::new_adt(tcx, tcx.adt_def(adt_did), args);
                    let ai = self.ty(at);
                    f.push(("ctor", format!("[{},{}]", ai, vidx)));
                }
            }
            ty::FnPtr(..) => f.push(("k", esc("fnptr"))),
            ty::Closure(d, args) => {
                f.push(("k", esc("closure")));
                f.push(("path", esc(&path_of(tcx, *d))));
                let ca = args.as_closure();
                let ups: Vec<Ty<'tcx>> = ca.upvar_tys().iter().collect();
                let a: Vec<String> = ups.iter().map(|x| self.ty(*x).to_string()).collect();
                f.push(("upvars", arr(a)));
                let inst = Instance::new_raw(*d, args);
                if !t.has_param() {
                    let i = self.inst(inst);
                    f.push(("inst", i.to_string()));
                    f.push(("ckind", esc(&format!("{:?}", ca.kind()))));
                }
            }
            ty::Dynamic(preds, ..) => {
                f.push(("k", esc("dyn")));
                if let Some(p) = preds.principal() {
                    f.push(("path", esc(&path_of(tcx, p.skip_binder().def_id))));
                }
            }
            _ => f.push(("k", esc("other"))),
        }
        if !t.has_param() && !t.has_escaping_bound_vars() && !t.has_aliases() {
            if let Ok(l) = tcx.layout_of(self.te().as_query_input(t)) {
                if l.is_sized() {
                    f.push(("size", l.size.bytes().to_string()));
                    f.push(("align", l.align.abi.bytes().to_string()));
                }
            }
        }
        self.type_out[id] = obj(&f);
        id
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        if args.has_param() || args.has_escaping_bound_vars() {
            return None;
        }
        let args = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, self.te(), d, args) {
            Ok(Some(i)) => Some(self.inst(i)),
            _ => None,
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.inst_list.len();
        self.inst_ids.insert(i, id);
        self.inst_list.push(i);
        self.queue.push_back(id);
        id
    }

    fn allowed(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return false;
                }
                if self.is_ws(d) || tcx.crate_name(d.krate).as_str() == "vmodels" {
                    return true;
                }
                let kr = tcx.crate_name(d.krate);
                if !matches!(kr.as_str(), "core" | "alloc" | "std" | "anyhow") {
                    return false;
                }
                let p = path_of(tcx, d);
                self.allow.iter().any(|a| p.contains(a.as_str()))
            }
            InstanceKind::Virtual(..) | InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) => false,
            InstanceKind::Shim(_) => {
                let s = format!("{:?}", i.def);
                !(s.contains("DropGlue") || s.contains("ThreadLocal") || s.contains("Async"))
            }
        }
    }

    fn span(&mut self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        if s.is_dummy() {
            return "null".into();
        }
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        let n = self.files.len();
        let fi = *self.files.entry(name).or_insert(n);
        format!("[{},{}]", fi, lo.line)
    }

    fn constant(&mut self, inst: Instance<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let k = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.te(), EarlyBinder::bind(tcx, c.const_));
        let t = k.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"t\":{},\"fn\":1}}", tid);
        }
        let v = match k.eval(tcx, self.te(), c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => "{\"unk\":1}".into(),
        };
        format!("{{\"t\":{},\"v\":{}}}", tid, v)
    }

    // {"i":n} int/bool/char, {"s":..} str, {"b":[..]} bytes, {"z":1} zst, {"r":v} ref, {"a":[..]} array/slice,
    // {"adt":variant,"f":[..]}, {"tup":[..]}, {"static":p}, {"fnptr":inst}
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"unk\":1}".into();
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return format!("{{\"i\":{}}}", s.to_bits_unchecked());
                }
                return self.indirect(v, t, depth);
            }
            ty::Int(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return format!("{{\"i\":{}}}", s.to_int(s.size()));
                }
                return self.indirect(v, t, depth);
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = self.slice_bytes(v) {
                            return match std::str::from_utf8(&b) {
                                Ok(s) => format!("{{\"s\":{}}}", esc(s)),
                                Err(_) => format!("{{\"b\":{}}}", arr(b.iter().map(|x| x.to_string()))),
                            };
                        }
                        return self.indirect(v, t, depth);
                    }
                    ty::Slice(e) => {
                        if e.is_integral() && matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                            if let Some(b) = self.slice_bytes(v) {
                                return format!("{{\"r\":{{\"b\":{}}}}}", arr(b.iter().map(|x| x.to_string())));
                            }
                        }
                        if let ConstValue::Slice { alloc_id, meta } = v {
                            if let Ok(l) = tcx.layout_of(self.te().as_query_input(*e)) {
                                let sz = l.size;
                                let mut out = vec![];
                                for i in 0..meta {
                                    let ev = ConstValue::Indirect { alloc_id, offset: sz * i };
                                    out.push(self.cval(ev, *e, depth + 1));
                                }
                                return format!("{{\"r\":{{\"a\":{}}}}}", arr(out));
                            }
                        }
                        return self.indirect(v, t, depth);
                    }
                    ty::Dynamic(..) => return "{\"unk\":1}".into(),
                    _ => {
                        if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                            let (prov, off) = p.into_raw_parts();
                            let aid = prov.alloc_id();
                            match tcx.global_alloc(aid) {
                                GlobalAlloc::Memory(_) => {
                                    let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                    let s = self.cval(iv, *inner, depth + 1);
                                    return format!("{{\"r\":{}}}", s);
                                }
                                GlobalAlloc::Static(d) => {
                                    let p = path_of(tcx, d);
                                    if !self.statics.contains_key(&p) {
                                        self.statics.insert(p.clone(), "null".into());
                                        let mut s = "{\"unk\":1}".to_string();
                                        if self.is_ws(d) {
                                            if let Ok(_) = tcx.eval_static_initializer(d) {
                                                let aid = tcx.reserve_and_set_memory_alloc(tcx.eval_static_initializer(d).unwrap());
                                                s = self.cval(
                                                    ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO },
                                                    *inner,
                                                    depth + 1,
                                                );
                                            }
                                        }
                                        self.statics.insert(p.clone(), s);
                                    }
                                    return format!("{{\"static\":{}}}", esc(&p));
                                }
                                _ => return "{\"unk\":1}".into(),
                            }
                        }
                        if let ConstValue::Scalar(Scalar::Int(i)) = v {
                            return format!("{{\"addr\":{}}}", i.to_bits_unchecked());
                        }
                        return self.indirect(v, t, depth);
                    }
                }
            }
            ty::FnDef(..) => {
                let id = self.ty(t);
                return format!("{{\"fndef\":{}}}", id);
            }
            ty::FnPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        let i = self.inst(instance);
                        return format!("{{\"fnptr\":{}}}", i);
                    }
                }
                return "{\"unk\":1}".into();
            }
            ty::Closure(..) => {
                return "{\"z\":1}".into();
            }
            ty::Adt(d, _) if d.is_union() => return "{\"unk\":1}".into(),
            ty::Array(e, n) => {
                // u8 arrays directly
                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                    if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (v, n.try_to_target_usize(tcx)) {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let a = m.inner();
                            let s = offset.bytes() as usize;
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
                            return format!("{{\"b\":{}}}", arr(b.iter().map(|x| x.to_string())));
                        }
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let out: Vec<String> = dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    return format!("{{\"a\":{}}}", arr(out));
                }
            }
            ty::Adt(d, _) => {
                if d.variants().is_empty() {
                    return "{\"z\":1}".into();
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let out: Vec<String> = dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    let vi = dc.variant.map(|x| x.as_u32()).unwrap_or(0);
                    return format!("{{\"adt\":{},\"f\":{}}}", vi, arr(out));
                }
            }
            ty::Tuple(_) => {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let out: Vec<String> = dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    return format!("{{\"tup\":{}}}", arr(out));
                }
            }
            _ => {}
        }
        "{\"unk\":1}".into()
    }

    // scalars / references stored in memory
    fn indirect(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ConstValue::Indirect { alloc_id, offset } = v else { return "{\"unk\":1}".into() };
        let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else { return "{\"unk\":1}".into() };
        let a = m.inner();
        let psz = tcx.data_layout.pointer_size();
        let range = |s: rustc_abi::Size| rustc_middle::mir::interpret::AllocRange { start: offset, size: s };
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                let Ok(l) = tcx.layout_of(self.te().as_query_input(t)) else { return "{\"unk\":1}".into() };
                match a.read_scalar(&tcx, range(l.size), false) {
                    Ok(s) => {
                        if s.try_to_scalar_int().is_err() {
                            return "{\"unk\":1}".into();
                        }
                        self.cval(ConstValue::Scalar(s), t, depth + 1)
                    }
                    Err(_) => "{\"unk\":1}".into(),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let Ok(s) = a.read_scalar(&tcx, range(psz), true) else { return "{\"unk\":1}".into() };
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let r2 = rustc_middle::mir::interpret::AllocRange { start: offset + psz, size: psz };
                        let Ok(Scalar::Int(l)) = a.read_scalar(&tcx, r2, false) else { return "{\"unk\":1}".into() };
                        let Scalar::Ptr(p, _) = s else { 
                            return if matches!(inner.kind(), ty::Str) { "{\"s\":\"\"}".into() } else { "{\"r\":{\"a\":[]}}".into() } };
                        let (prov, off) = p.into_raw_parts();
                        let n = l.to_bits_unchecked() as u64;
                        let aid = prov.alloc_id();
                        if off.bytes() != 0 {
                            // a slice into a larger allocation
                            if let (ty::Str, GlobalAlloc::Memory(m2)) = (inner.kind(), tcx.global_alloc(aid)) {
                                let st = off.bytes() as usize;
                                let b = m2.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                                return match std::str::from_utf8(b) {
                                    Ok(s) => format!("{{\"s\":{}}}", esc(s)),
                                    Err(_) => "{\"unk\":1}".into(),
                                };
                            }
                            return "{\"unk\":1}".into();
                        }
                        self.cval(ConstValue::Slice { alloc_id: aid, meta: n }, t, depth + 1)
                    }
                    ty::Dynamic(..) => "{\"unk\":1}".into(),
                    _ => self.cval(ConstValue::Scalar(s), t, depth + 1),
                }
            }
            _ => "{\"unk\":1}".into(),
        }
    }

    fn slice_bytes(&self, v: ConstValue) -> Option<Vec<u8>> {
        if let ConstValue::Slice { alloc_id, meta } = v {
            if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                let a = m.inner();
                let n = meta as usize;
                if n <= a.len() {
                    return Some(a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec());
                }
            }
        }
        None
    }

    fn place(&mut self, inst: Instance<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"D\""),
                ProjectionElem::Field(f, t) => {
                    let t = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.te(), EarlyBinder::bind(tcx, t));
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_u32(), self.ty(t));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"v\",{}]", v.as_u32());
                }
                ProjectionElem::PhantomDeref => {}
                _ => {}
            }
        }
        o.push(']');
        o
    }

    fn operand(&mut self, inst: Instance<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(inst, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(inst, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(inst, c)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn note_unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        // find the (Source, dyn Trait) pair behind pointers/boxes
        let tcx = self.tcx;
        fn pointee<'t>(t: Ty<'t>) -> Option<Ty<'t>> {
            match t.kind() {
                ty::Ref(_, e, _) | ty::RawPtr(e, _) => Some(*e),
                ty::Adt(_, a) => a.types().next(),
                _ => None,
            }
        }
        let (Some(s), Some(d)) = (pointee(from), pointee(to)) else { return };
        let ty::Dynamic(preds, ..) = d.kind() else { return };
        let Some(pr) = preds.principal() else { return };
        let pr = tcx.instantiate_bound_regions_with_erased(pr);
        let tr = pr.with_self_ty(tcx, s);
        let tr = tcx.erase_and_anonymize_regions(tr);
        let sid = self.ty(s);
        let full = self.is_ws_ty(s);
        if !full {
            return;
        }
        for e in tcx.vtable_entries(tr).iter() {
            if let ty::VtblEntry::Method(i) = e {
                let name = match i.def {
                    InstanceKind::Item(d) if tcx.is_closure_like(d) => "call*".to_string(),
                    _ => tcx.opt_item_name(i.def_id()).map(|x| x.to_string()).unwrap_or("call*".to_string()),
                };
                let ii = self.inst(*i);
                self.dyn_impls.insert((sid, name), ii);
            }
        }
    }
    fn is_ws_ty(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => self.is_ws(d.did()),
            ty::Closure(d, _) => self.is_ws(*d),
            _ => false,
        }
    }

    fn rvalue(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        macro_rules! mono {
            ($x:expr) => {
                inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.te(), EarlyBinder::bind(tcx, $x))
            };
        }
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(inst, o)),
            Rvalue::Repeat(o, n) => {
                let n = mono!(*n);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(inst, o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(inst, p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(inst, p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(inst, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path_of(tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let t2 = mono!(*t);
                let ft = mono!(o.ty(body, tcx));
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => {
                        if let ty::adjustment::PointerCoercion::Unsize = pc {
                            self.note_unsize(ft, t2);
                        }
                        if let ty::adjustment::PointerCoercion::ReifyFnPointer(_) | ty::adjustment::PointerCoercion::ClosureFnPointer(_) = pc {
                            self.ty(ft);
                        }
                        format!("{:?}", pc)
                    }
                    k => format!("{:?}", k),
                };
                let a = self.ty(ft);
                let b = self.ty(t2);
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(inst, o), a, b)
            }
            Rvalue::BinaryOp(b, ops) => {
                let ft = mono!(ops.0.ty(body, tcx));
                let t = self.ty(ft);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&format!("{:?}", b)),
                    self.operand(inst, &ops.0),
                    self.operand(inst, &ops.1),
                    t
                )
            }
            Rvalue::UnaryOp(u, o) => {
                let ft = mono!(o.ty(body, tcx));
                let t = self.ty(ft);
                format!("[\"un\",{},{},{}]", esc(&format!("{:?}", u)), self.operand(inst, o), t)
            }
            Rvalue::Discriminant(p) => {
                let pt = mono!(p.ty(body, tcx).ty);
                let t = self.ty(pt);
                format!("[\"disc\",{},{}]", self.place(inst, p), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(inst, x)).collect();
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = mono!(*t);
                        format!("[\"agg\",\"array\",{},0,{}]", self.ty(t), arr(o))
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", arr(o)),
                    AggregateKind::Adt(d, v, args, _, field) => {
                        let args = mono!(*args);
                        let t = Ty::new_adt(tcx, tcx.adt_def(*d), args);
                        let t = self.ty(t);
                        let fi = field.map(|f| f.as_u32().to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"adt\",{},{},{},{}]", t, v.as_u32(), arr(o), fi)
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = mono!(*args);
                        let t = Ty::new_closure(tcx, *d, args);
                        let t = self.ty(t);
                        format!("[\"agg\",\"closure\",{},0,{}]", t, arr(o))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,0,{}]", arr(o)),
                    _ => "[\"unk\"]".into(),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(inst, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(inst, o)),
        }
    }

    fn dump_body(&mut self, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def);
        macro_rules! mono {
            ($x:expr) => {
                inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.te(), EarlyBinder::bind(tcx, $x))
            };
        }
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = mono!(l.ty);
            locals.push(self.ty(t).to_string());
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{},{},{}]", self.place(inst, p), self.rvalue(inst, body, r), sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(inst, place), variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(c) = &**i {
                            st.push(format!(
                                "[\"cno\",{},{},{}]",
                                self.operand(inst, &c.src),
                                self.operand(inst, &c.dst),
                                self.operand(inst, &c.count)
                            ));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = mono!(discr.ty(body, tcx));
                    let signed_bits = match dt.kind() {
                        ty::Int(i) => Some(i.bit_width().unwrap_or(64)),
                        _ => None,
                    };
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = match signed_bits {
                                Some(bits) if bits < 128 => {
                                    let sh = 128 - bits as u32;
                                    (((v << sh) as i128) >> sh).to_string()
                                }
                                Some(_) => (v as i128).to_string(),
                                None => v.to_string(),
                            };
                            format!("[{},{}]", vs, b.as_u32())
                        })
                        .collect();
                    let dti = self.ty(dt);
                    format!("[\"sw\",{},{},{},{},{}]", self.operand(inst, discr), arr(v), targets.otherwise().as_u32(), dti, sp)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = mono!(place.ty(body, tcx).ty);
                    let ti = self.ty(pt);
                    format!("[\"drop\",{},{},{},{}]", self.place(inst, place), target.as_u32(), ti, sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = mono!(func.ty(body, tcx));
                    let fti = self.ty(ft);
                    let a: Vec<String> = args.iter().map(|x| self.operand(inst, &x.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = mono!(x.node.ty(body, tcx));
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = mono!(destination.ty(body, tcx).ty);
                    let dti = self.ty(dt);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{},{}]",
                        self.operand(inst, func),
                        fti,
                        arr(a),
                        self.place(inst, destination),
                        target.map(|b| b.as_u32().to_string()).unwrap_or("null".into()),
                        sp,
                        arr(at),
                        dti
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow_{:?}", op), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow_neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let o: Vec<String> = ops.iter().map(|x| self.operand(inst, x)).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(inst, cond),
                        expected,
                        esc(&k),
                        arr(o),
                        target.as_u32(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"end\"]".into(),
            };
            blocks.push(format!("[{},{},{}]", arr(st), ts, if bb.is_cleanup { 1 } else { 0 }));
        }
        let sp = self.span(body.span);
        obj(&[
            ("argc", body.arg_count.to_string()),
            ("locals", arr(locals)),
            ("names", arr(names)),
            ("blocks", arr(blocks)),
            ("span", sp),
            ("spread", body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into())),
        ])
    }

    fn dump_inst(&mut self, id: usize) -> String {
        let tcx = self.tcx;
        let inst = self.inst_list[id];
        let d = inst.def_id();
        let mut f: Vec<(&str, String)> = vec![];
        f.push(("path", esc(&path_of(tcx, d))));
        f.push(("crate", esc(tcx.crate_name(d.krate).as_str())));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic(_) => "llvm".into(),
            InstanceKind::Virtual(..) => "virtual".into(),
            InstanceKind::Shim(s) => format!("shim:{:?}", s).chars().take(60).collect(),
        };
        f.push(("kind", esc(&kind)));
        let targs: Vec<ty::GenericArg<'tcx>> = inst.args.iter().collect();
        let mut a = vec![];
        for g in targs {
            if let Some(t) = g.as_type() {
                a.push(self.ty(t).to_string());
            } else if let Some(c) = g.as_const() {
                a.push(format!("{{\"const\":{}}}", c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())));
            }
        }
        f.push(("args", arr(a)));
        if tcx.def_kind(d) == DefKind::AssocFn {
            f.push(("name", esc(tcx.item_name(d).as_str())));
            let ai = tcx.associated_item(d);
            if let Some(tid) = ai.trait_item_def_id() {
                f.push(("tmethod", esc(&path_of(tcx, tid))));
            }
            let parent = tcx.parent(d);
            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate(tcx, inst.args).skip_norm_wip();
                if let Ok(st) = tcx.try_normalize_erasing_regions(self.te(), ty::Unnormalized::new_wip(st)) {
                    f.push(("self", self.ty(st).to_string()));
                }
            } else if let DefKind::Trait = tcx.def_kind(parent) {
                f.push(("self", self.ty(inst.args.type_at(0)).to_string()));
                f.push(("trait_default", "true".into()));
            }
        }
        if let Some(m) = self.model(inst) {
            f.push(("model", m.to_string()));
        } else if self.allowed(inst) {
            f.push(("body", self.dump_body(inst)));
        }
        obj(&f)
    }
}

/// the generic model functions of the force-loaded crate vmodels
fn models_of(tcx: TyCtxt<'_>) -> HashMap<String, DefId> {
    let mut m = HashMap::new();
    for c in tcx.crates(()) {
        if tcx.crate_name(*c).as_str() == "vmodels" {
            for ch in tcx.module_children(c.as_def_id()) {
                if let Some(d) = ch.res.opt_def_id() {
                    if tcx.def_kind(d) == DefKind::Fn {
                        m.insert(ch.ident.to_string(), d);
                    }
                }
            }
        }
    }
    m
}

const LEAF_ITERS: [&str; 8] = [
    "core::slice::iter", "alloc::vec::into_iter", "core::array::iter", "core::str::", "core::iter::range", "core::ops::range",
    "std::path", "alloc::vec::drain",
];

impl<'tcx> Cx<'tcx> {
    /// the model to run instead of a library function written with raw pointers or specialisation
    fn model(&mut self, inst: Instance<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let InstanceKind::Item(d) = inst.def else { return None };
        if self.is_ws(d) || tcx.crate_name(d.krate).as_str() == "vmodels" || tcx.def_kind(d) != DefKind::AssocFn {
            return None;
        }
        let path = path_of(tcx, d);
        let name = tcx.item_name(d).to_string();
        let sig = || {
            let s = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            tcx.try_normalize_erasing_regions(self.te(), ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(s))).ok()
        };
        let vec_elem = |t: Ty<'tcx>| match t.kind() {
            ty::Adt(_, a) => a.types().next(),
            ty::Ref(_, t, _) => match t.kind() {
                ty::Adt(_, a) => a.types().next(),
                _ => None,
            },
            _ => None,
        };
        let (m, args): (String, Vec<ty::GenericArg<'tcx>>) = if path.contains("SpecFromIter") && name == "from_iter" {
            let s = sig()?;
            ("v_from_iter".into(), vec![vec_elem(s.output())?.into(), s.inputs()[0].into()])
        } else if path.contains("SpecExtend") && name == "spec_extend" {
            let s = sig()?;
            ("v_extend".into(), vec![vec_elem(s.inputs()[0])?.into(), s.inputs()[1].into()])
        } else {
            let tm = tcx.associated_item(d).trait_item_def_id()?;
            if !path_of(tcx, tm).starts_with("core::iter::traits::iterator::Iterator::") {
                return None;
            }
            let parent = tcx.parent(d);
            let st = if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate(tcx, inst.args).skip_norm_wip();
                tcx.try_normalize_erasing_regions(self.te(), ty::Unnormalized::new_wip(st)).ok()?
            } else {
                inst.args.type_at(0)
            };
            let ty::Adt(ad, _) = st.kind() else { return None };
            let ap = path_of(tcx, ad.did());
            if !LEAF_ITERS.iter().any(|p| ap.starts_with(p)) {
                return None;
            }
            let g = tcx.generics_of(d);
            let mut a: Vec<ty::GenericArg<'tcx>> = vec![st.into()];
            a.extend(inst.args.iter().skip(g.parent_count).filter(|x| x.as_type().is_some()));
            (format!("it_{name}"), a)
        };
        let md = *self.models.get(&m)?;
        let args = tcx.mk_args(&args);
        if tcx.generics_of(md).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count() != args.len() {
            return None;
        }
        // lifetimes of the model, if any, are erased
        let full = ty::GenericArgs::for_item(tcx, md, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => args[p.index as usize],
        });
        self.resolve(md, full)
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'_>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let Ok(dir) = std::env::var("VDUMP_DIR") else { return Compilation::Continue };
        let is_bin = tcx.entry_fn(()).is_some();
        if !WS.contains(&krate.as_str()) {
            return Compilation::Continue;
        }
        // facts about trait impls
        let mut impls = vec![];
        for (tr, list) in tcx.all_local_trait_impls(()) {
            for i in list {
                let h = tcx.impl_trait_header(i.to_def_id());
                let t = h.trait_ref.instantiate_identity().skip_norm_wip();
                let st = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t.self_ty())));
                impls.push(format!("[{},{},{}]", esc(&path_of(tcx, *tr)), esc(&st), esc(&format!("{:?}", h.polarity))));
            }
        }
        impls.sort();
        let kind = if is_bin { "bin" } else { "lib" };
        let argv: Vec<String> = std::env::args().collect();
        std::fs::write(format!("{dir}/{krate}.{kind}.args"), argv.join("\n")).unwrap();
        std::fs::write(format!("{dir}/{krate}.{kind}.impls.json"), arr(impls)).unwrap();

        let mut roots: Vec<(String, DefId)> = vec![];
        if is_bin {
            if let Some((d, _)) = tcx.entry_fn(()) {
                roots.push(("main".into(), d));
            }
        }
        if krate == "vharness" {
            for ld in tcx.hir_crate_items(()).definitions() {
                let d = ld.to_def_id();
                if tcx.def_kind(d) == DefKind::Fn && tcx.item_name(d).as_str().starts_with("root_") {
                    roots.push((tcx.item_name(d).to_string(), d));
                }
            }
        }
        if roots.is_empty() {
            return Compilation::Continue;
        }
        let allow = std::env::var("VDUMP_ALLOW")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default()
            .lines()
            .map(|s| s.trim().to_string())
            .filter(|s| !s.is_empty() && !s.starts_with('#'))
            .collect();
        let mut cx = Cx {
            tcx,
            types: HashMap::new(),
            type_out: vec![],
            inst_ids: HashMap::new(),
            inst_list: vec![],
            queue: VecDeque::new(),
            allow,
            dyn_impls: BTreeMap::new(),
            drop_impls: BTreeMap::new(),
            statics: BTreeMap::new(),
            files: BTreeMap::new(),
            models: models_of(tcx),
        };
        let mut rs = vec![];
        for (n, d) in roots {
            let i = cx.inst(Instance::mono(tcx, d));
            rs.push(format!("{}:{}", esc(&n), i));
        }
        let mut out: Vec<(usize, String)> = vec![];
        while let Some(id) = cx.queue.pop_front() {
            let s = cx.dump_inst(id);
            out.push((id, s));
        }
        out.sort_by_key(|x| x.0);
        let dynv: Vec<String> =
            cx.dyn_impls.iter().map(|((t, n), i)| format!("[{},{},{}]", t, esc(n), i)).collect();
        let dropv: Vec<String> = cx.drop_impls.iter().map(|(t, i)| format!("[{},{}]", t, i)).collect();
        let mut files: Vec<(usize, String)> = cx.files.iter().map(|(k, v)| (*v, k.clone())).collect();
        files.sort();
        let stat: Vec<String> = cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let s = obj(&[
            ("crate", esc(&krate)),
            ("roots", format!("{{{}}}", rs.join(","))),
            ("types", arr(cx.type_out.iter().cloned())),
            ("insts", arr(out.into_iter().map(|x| x.1))),
            ("dyn", arr(dynv)),
            ("drops", arr(dropv)),
            ("statics", format!("{{{}}}", stat.join(","))),
            ("files", arr(files.into_iter().map(|(_, n)| esc(&n)))),
        ]);
        std::fs::write(format!("{dir}/{krate}.{kind}.json"), s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: driver <path to rustc> args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "volaris_cli") {
        if let Ok(m) = std::env::var("VDUMP_MODELS") {
            args.push("-Zunstable-options".into());
            args.push("--extern".into());
            args.push(format!("force:vmodels={m}"));
        }
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
