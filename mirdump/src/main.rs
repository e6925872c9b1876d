//! mirdump: rustc driver that writes the monomorphic MIR of the crate being compiled as JSON.
//!
//! It is the *extraction* step of the verifier: nothing is rewritten, every function of the crate
//! (closures and trait default methods included, instantiated at the types that implement the
//! trait) is emitted statement by statement as rustc lowers it, with every call resolved.
//! Bodies of generic std helpers are followed only for the path prefixes in MIRDUMP_STD.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    queue: VecDeque<Instance>,
    seen: HashMap<Instance, String>,
    names: HashMap<String, usize>,
    impls: Vec<(TraitDef, Ty)>,
    fns: Vec<String>,
    std_prefix: Vec<String>,
    statics: HashMap<String, String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.ty_json.push(String::new());
        self.tys.insert(t, id);
        let j = self.ty_desc(t);
        self.ty_json[id] = j;
        id
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(format!(
                    "{{\"const\":{}}}",
                    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                )),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty_desc(&mut self, t: Ty) -> String {
        let s = js(&format!("{}", t));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
                RigidTy::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bytes\":{},\"s\":{s}}}", i.num_bytes()),
                RigidTy::Uint(i) => {
                    format!("{{\"k\":\"uint\",\"bytes\":{},\"s\":{s}}}", i.num_bytes())
                }
                RigidTy::Float(_) => format!("{{\"k\":\"float\",\"s\":{s}}}"),
                RigidTy::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
                RigidTy::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    format!("{{\"k\":\"slice\",\"e\":{e},\"s\":{s}}}")
                }
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"array\",\"e\":{e},\"n\":{n},\"s\":{s}}}")
                }
                RigidTy::RawPtr(e, _) => {
                    let e = self.ty(e);
                    format!("{{\"k\":\"ptr\",\"e\":{e},\"s\":{s}}}")
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    let m = matches!(m, Mutability::Mut);
                    format!("{{\"k\":\"ref\",\"e\":{e},\"mut\":{m},\"s\":{s}}}")
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"e\":[{}],\"s\":{s}}}", v.join(","))
                }
                RigidTy::Adt(d, a) => {
                    let args = self.args(&a);
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let local = d.krate().is_local;
                    let name = d.name();
                    // Only expand ADTs that the engine treats structurally.
                    let expand = local
                        || matches!(d.kind(), AdtKind::Enum)
                        || name.starts_with("std::ops::Range")
                        || name.starts_with("core::ops::Range");
                    let mut vs = vec![];
                    if expand {
                        for (vi, v) in d.variants().iter().enumerate() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                let fi = self.ty(ft);
                                fs.push(format!("[{},{}]", js(&f.name), fi));
                            }
                            let discr = if matches!(d.kind(), AdtKind::Enum) {
                                d.discriminant_for_variant(v.idx()).val.to_string()
                            } else {
                                vi.to_string()
                            };
                            vs.push(format!(
                                "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                                js(&v.name()),
                                discr,
                                fs.join(",")
                            ));
                        }
                    }
                    format!(
                        "{{\"k\":\"adt\",\"kind\":\"{kind}\",\"name\":{},\"local\":{local},\"args\":{args},\"expanded\":{expand},\"variants\":[{}],\"s\":{s}}}",
                        js(&name),
                        vs.join(",")
                    )
                }
                RigidTy::FnDef(d, a) => {
                    let args = self.args(&a);
                    let tgt = self.resolve_json(d, &a);
                    format!("{{\"k\":\"fndef\",\"name\":{},\"args\":{args},\"tgt\":{tgt},\"s\":{s}}}", js(&d.name()))
                }
                RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
                RigidTy::Closure(d, a) => {
                    let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                    // The by-reference kinds resolve to the closure body itself; FnOnce may be a shim.
                    let mut body = "null".to_string();
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                            if matches!(i.kind, InstanceKind::Item) {
                                body = js(&self.inst(i));
                                break;
                            }
                        }
                    }
                    let _ = inst;
                    // captured types: last arg is the tuple of upvars
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".into(),
                    };
                    format!("{{\"k\":\"closure\",\"name\":{},\"body\":{body},\"upvars\":{up},\"s\":{s}}}", js(&d.name()))
                }
                RigidTy::Dynamic(preds, _) => {
                    let mut p = "null".to_string();
                    for b in &preds {
                        if let ExistentialPredicate::Trait(t) = &b.value {
                            p = js(&t.def_id.name());
                        }
                    }
                    format!("{{\"k\":\"dyn\",\"trait\":{p},\"s\":{s}}}")
                }
                _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
            },
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        }
    }
    fn follow(&self, name: &str) -> bool {
        self.std_prefix.iter().any(|p| name.starts_with(p.as_str()))
    }
    fn inst(&mut self, i: Instance) -> String {
        if let Some(n) = self.seen.get(&i) {
            return n.clone();
        }
        let base = i.name();
        let c = self.names.entry(base.clone()).or_insert(0);
        let n = if *c == 0 { base.clone() } else { format!("{}#{}", base, c) };
        *c += 1;
        self.seen.insert(i, n.clone());
        self.queue.push_back(i);
        n
    }
    fn resolve_json(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let args = self.args(a);
        match Instance::resolve(d, a) {
            Ok(i) => match i.kind {
                InstanceKind::Virtual { .. } => {
                    let mut tg = vec![];
                    let tname = d.name();
                    let impls: Vec<(TraitDef, Ty)> = self.impls.clone();
                    let mut done = HashSet::new();
                    for (tr, ty) in impls {
                        // candidate: same trait path prefix
                        if !done.insert(ty) {
                            continue;
                        }
                        let trn = tr.name();
                        let _ = &trn;
                        let mut na = a.clone();
                        na.0[0] = GenericArgKind::Type(ty);
                        if let Ok(j) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            Instance::resolve(d, &na)
                        })) {
                            if let Ok(j) = j {
                                let jn = self.inst(j);
                                tg.push(format!("[{},{}]", self.ty(ty), js(&jn)));
                            }
                        }
                    }
                    format!("{{\"virtual\":{},\"targets\":[{}],\"args\":{args}}}", js(&tname), tg.join(","))
                }
                InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => {
                    format!("{{\"intrinsic\":{},\"args\":{args}}}", js(&d.name()))
                }
                InstanceKind::Shim => {
                    format!("{{\"shim\":{},\"def\":{},\"args\":{args}}}", js(&i.name()), js(&d.name()))
                }
                InstanceKind::Item => {
                    let name = i.name();
                    let local = is_local(&i);
                    // where is it: def name of the resolved item
                    let follow = local || self.follow(&d.name()) || self.follow(&name);
                    if follow && i.has_body() {
                        let n = self.inst(i);
                        format!("{{\"fn\":{},\"def\":{},\"local\":{local},\"args\":{args}}}", js(&n), js(&d.name()))
                    } else {
                        format!("{{\"ext\":{},\"def\":{},\"args\":{args}}}", js(&name), js(&d.name()))
                    }
                }
            },
            Err(_) => format!("{{\"unresolved\":{},\"args\":{args}}}", js(&d.name())),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\".\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"[]\",{}]", l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"[c]\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"[s]\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"as\",{}]", idx(*v)),
                o => format!("[\"?\",{}]", js(&format!("{:?}", o))),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn alloc_ref(&mut self, a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
        let g = GlobalAlloc::from(p.1 .0);
        let o = a.read_partial_uint(off..off + 8).ok()? as usize;
        Some((g, o))
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        let ti = self.ty(t);
        let v = self.decode_v(t, a, off, depth).unwrap_or("{\"unk\":true}".into());
        format!("{{\"t\":{},\"v\":{}}}", ti, v)
    }
    fn decode_v(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Option<String> {
        if depth > 8 {
            return None;
        }
        let TyKind::RigidTy(r) = t.kind() else { return None };
        match r {
            RigidTy::Bool => Some(format!("{{\"bool\":{}}}", a.read_partial_uint(off..off + 1).ok()? != 0)),
            RigidTy::Char => Some(format!("{{\"int\":{}}}", a.read_partial_uint(off..off + 4).ok()?)),
            RigidTy::Uint(u) => {
                Some(format!("{{\"int\":{}}}", a.read_partial_uint(off..off + u.num_bytes()).ok()?))
            }
            RigidTy::Int(u) => {
                let n = u.num_bytes();
                let x = a.read_partial_uint(off..off + n).ok()?;
                let sh = 128 - 8 * n as u32;
                Some(format!("{{\"int\":{}}}", ((x << sh) as i128) >> sh))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let (g, o) = self.alloc_ref(a, off)?;
                match g {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                            let b: Option<Vec<u8>> = m.bytes[o..o + len].iter().copied().collect();
                            let s = String::from_utf8(b?).ok()?;
                            Some(format!("{{\"str\":{}}}", js(&s)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                            let sz = el.layout().ok()?.shape().size.bytes();
                            let mut v = vec![];
                            for i in 0..len {
                                v.push(self.decode(el, &m, o + i * sz, depth + 1));
                            }
                            Some(format!("{{\"slice\":[{}]}}", v.join(",")))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                            let vt = self.alloc_ref(a, off + 8);
                            if let Some((GlobalAlloc::VTable(ty, _), _)) = vt {
                                let ti = self.ty(ty);
                                let inner = self.decode(ty, &m, o, depth + 1);
                                Some(format!("{{\"dyn\":{},\"ref\":{}}}", ti, inner))
                            } else {
                                None
                            }
                        }
                        _ => {
                            let inner = self.decode(e, &m, o, depth + 1);
                            Some(format!("{{\"ref\":{}}}", inner))
                        }
                    },
                    GlobalAlloc::Static(s) => Some(format!("{{\"static\":{}}}", js(&s.name()))),
                    GlobalAlloc::Function(f) => {
                        let n = self.inst(f);
                        Some(format!("{{\"fnptr\":{}}}", js(&n)))
                    }
                    _ => None,
                }
            }
            RigidTy::FnPtr(_) => {
                let (g, _) = self.alloc_ref(a, off)?;
                if let GlobalAlloc::Function(f) = g {
                    let n = if is_local(&f) { self.inst(f) } else { f.name() };
                    return Some(format!("{{\"fnptr\":{}}}", js(&n)));
                }
                None
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()?;
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n as usize {
                    v.push(self.decode(e, a, off + i * sz, depth + 1));
                }
                Some(format!("{{\"array\":[{}]}}", v.join(",")))
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let mut v = vec![];
                for (i, x) in ts.iter().enumerate() {
                    let o = match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets[i].bytes(),
                        _ => 0,
                    };
                    v.push(self.decode(*x, a, off + o, depth + 1));
                }
                Some(format!("{{\"tuple\":[{}]}}", v.join(",")))
            }
            RigidTy::FnDef(..) => Some("{\"zst\":true}".into()),
            RigidTy::Closure(..) => Some("{\"zst\":true}".into()),
            RigidTy::Adt(d, args) => {
                let sh = t.layout().ok()?.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                offsets.iter().map(|x| x.bytes()).collect()
                            }
                            _ => vec![],
                        };
                        (idx(*index), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsz = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                                Primitive::Int { length, .. } => length_bytes(length),
                                Primitive::Pointer(_) => 8,
                                _ => return None,
                            },
                        };
                        let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let raw = a.read_partial_uint(off + toff..off + toff + tsz).ok()?;
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut f = None;
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if dv & mask == raw {
                                        f = Some(idx(v.idx()));
                                    }
                                }
                                f?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let lo = idx(*niche_variants.start());
                                let hi = idx(*niche_variants.end());
                                let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let rel = raw.wrapping_sub(*niche_start) & mask;
                                if !isptr && rel <= (hi - lo) as u128 {
                                    lo + rel as usize
                                } else {
                                    idx(*untagged_variant)
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                    VariantsShape::Empty => return None,
                };
                let vs = d.variants();
                let v = vs.get(vi)?;
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let o = offs.get(i).copied().unwrap_or(0);
                    fs.push(self.decode(f.ty_with_args(&args), a, off + o, depth + 1));
                }
                Some(format!("{{\"adt\":{},\"fields\":[{}]}}", vi, fs.join(",")))
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"t\":{ti},\"v\":{{\"zst\":true}}}}"),
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => self.decode(*ty, a, 0, 0),
                _ => match tc.eval_target_usize() {
                    Ok(x) => format!("{{\"t\":{ti},\"v\":{{\"int\":{x}}}}}"),
                    Err(_) => format!("{{\"t\":{ti},\"v\":{{\"unk\":true}}}}"),
                },
            },
            _ => format!("{{\"t\":{ti},\"v\":{{\"unk\":true}}}}"),
        }
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        let x: Vec<String> = v.iter().map(|o| self.op(o)).collect();
        format!("[{}]", x.join(","))
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(p))
            }
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", js(&format!("{:?}", k)), self.place(p))
            }
            Rvalue::Aggregate(k, os) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            idx(*v),
                            active.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    o => format!("[\"?\",{}]", js(&format!("{:?}", o))),
                };
                format!("[\"agg\",{},{}]", ks, self.ops(os))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.op(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            o => format!("[\"?\",{}]", js(&format!("{:?}", o))),
        }
    }
    fn body(&mut self, i: Instance, name: &str, b: &Body) -> String {
        let mut o = String::new();
        let args = self.args(&i.args());
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, js(&v.name)));
            }
        }
        let span = b.span.get_lines();
        let file = b.span.get_filename();
        let _ = write!(
            o,
            "{{\"name\":{},\"local\":{},\"targs\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"vars\":[{}],\"file\":{},\"line\":{},\"end_line\":{},\"blocks\":[",
            js(name),
            is_local(&i),
            args,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals.join(","),
            names.join(","),
            js(&file),
            span.start_line,
            span.end_line
        );
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let t = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{}]", self.place(p), self.rvalue(r))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setdiscr\",{},{}]", self.place(place), idx(*variant_index))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(x)) => {
                        format!("[\"assume\",{}]", self.op(x))
                    }
                    StatementKind::Intrinsic(x) => format!("[\"?\",{}]", js(&format!("{:?}", x))),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!(
                        "[\"switch\",{},[{}],{}]",
                        self.op(discr),
                        v.join(","),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", self.place(place), target, ty)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.resolve_json(d, &a),
                            _ => format!("{{\"indirect\":{}}}", self.op(func)),
                        },
                        _ => format!("{{\"indirect\":{}}}", self.op(func)),
                    };
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        self.ops(args),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(b, ..) => format!("overflow-{:?}", b),
                        AssertMessage::OverflowNeg(_) => "overflow-neg".to_string(),
                        AssertMessage::DivisionByZero(_) => "div0".to_string(),
                        AssertMessage::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.op(cond), expected, m, target)
                }
                o => format!("[\"?\",{}]", js(&format!("{:?}", o))),
            };
            let _ = write!(o, "],\"t\":{},\"l\":{}}}", t, line);
        }
        o.push_str("]}");
        o
    }
}

fn idx(v: VariantIdx) -> usize {
    // VariantIdx has no public accessor in every version; its Debug form is `VariantIdx(n, ..)`.
    let s = format!("{:?}", v);
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap()
}
fn length_bytes(l: &IntegerLength) -> usize {
    match l {
        IntegerLength::I8 => 1,
        IntegerLength::I16 => 2,
        IntegerLength::I32 => 4,
        IntegerLength::I64 => 8,
        IntegerLength::I128 => 16,
    }
}
fn is_local(i: &Instance) -> bool {
    match rustc_public::CrateItem::try_from(*i) {
        Ok(c) => c.krate().is_local,
        Err(_) => false,
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let mut cx = Cx::default();
    cx.std_prefix = std::env::var("MIRDUMP_STD")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let krate = rustc_public::local_crate();
    // implementors of local traits
    let mut impl_rows = vec![];
    for im in krate.trait_impls() {
        let t = im.trait_impl().value;
        let st = t.self_ty();
        let conc = matches!(st.kind(), TyKind::RigidTy(_)) && t.args().0.iter().all(|g| match g {
            GenericArgKind::Type(t) => !matches!(t.kind(), TyKind::Param(_)),
            _ => true,
        });
        let has_param = format!("{}", st).contains("<T>");
        if t.def_id.krate().is_local {
            impl_rows.push(format!("[{},{}]", js(&t.def_id.name()), js(&format!("{}", st))));
            if conc && !has_param {
                cx.impls.push((t.def_id, st));
            }
        }
    }
    // roots: every non-generic local fn
    for f in krate.fn_defs() {
        let item = rustc_public::CrateItem(f.def_id());
        if item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            if i.has_body() {
                cx.inst(i);
            }
        }
    }
    // trait default methods at each local implementor
    let mut defaults = 0;
    for (tr, ty) in cx.impls.clone() {
        for ai in tr.associated_items() {
            if let AssocKind::Fn { .. } = ai.kind {
                let fd = FnDef(ai.def_id.def_id());
                let a = GenericArgs(vec![GenericArgKind::Type(ty)]);
                if let Ok(i) = Instance::resolve(fd, &a) {
                    if i.has_body() && is_local(&i) {
                        cx.inst(i);
                        defaults += 1;
                    }
                }
            }
        }
    }
    let _ = defaults;
    while let Some(i) = cx.queue.pop_front() {
        let n = cx.seen[&i].clone();
        if let Some(b) = i.body() {
            let j = cx.body(i, &n, &b);
            cx.fns.push(j);
        }
    }
    let mut o = String::new();
    o.push_str("{\"types\":[\n");
    o.push_str(&cx.ty_json.join(",\n"));
    o.push_str("],\n\"impls\":[\n");
    o.push_str(&impl_rows.join(",\n"));
    o.push_str("],\n\"fns\":[\n");
    o.push_str(&cx.fns.join(",\n"));
    o.push_str("]}\n");
    let _ = &cx.statics;
    std::fs::write(out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1].
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let is_target = {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
    };
    if !is_target {
        let real = std::env::args().nth(1).filter(|a| a.ends_with("rustc")).unwrap_or("rustc".into());
        let st = std::process::Command::new(real).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let ok = rustc_public::run!(&args, dump).is_ok();
    std::process::exit(if ok { 0 } else { 1 });
}
