//! `mirdump`: a rustc driver that writes the facts the checkers reason over.
//!
//! It is injected as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` of the probe crate (whose
//! dependencies, /repo's crate included, are compiled with -Zalways-encode-mir), and dumps, as JSON:
//! type table, monomorphic MIR of every function reachable from the probe's functions and from every
//! non-generic function of fuel_tx, resolved call targets, evaluated constants, and an API table
//! (items, impls, visibilities) of fuel_tx. Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;

use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, PrintTraitRefExt as _};
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_span::def_id::{DefId as RDefId, DefIndex, CRATE_DEF_INDEX};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_list: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    descend: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.insts.get(&t) {
            return *i;
        }
        let i = self.inst_list.len();
        self.insts.insert(t, i);
        self.inst_list.push(t);
        i
    }
    fn rdef<D: CrateDef>(&self, d: &D) -> RDefId {
        internal(self.tcx, d.def_id())
    }
    fn path(&self, d: RDefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        arr(a
            .0
            .iter()
            .filter_map(|x| match x {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("[\"const\",{}]", n),
                    _ => "[\"const\",null]".to_string(),
                }),
                _ => None,
            })
            .collect::<Vec<_>>())
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let TyKind::RigidTy(r) = kind else {
            return format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{}", t)));
        };
        let shown = js(&format!("{}", internal(self.tcx, t)));
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!(
                "{{\"k\":\"int\",\"bits\":{},\"signed\":false,\"size\":{}}}",
                i.num_bytes() * 8,
                matches!(i, UintTy::Usize)
            ),
            RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
            RigidTy::Array(e, n) => format!(
                "{{\"k\":\"array\",\"elem\":{},\"len\":{}}}",
                self.ty(e),
                n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())
            ),
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"elem\":{}}}", self.ty(e)),
            RigidTy::RawPtr(e, m) => {
                format!("{{\"k\":\"ptr\",\"to\":{},\"mut\":{}}}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::Ref(_, e, m) => {
                format!("{{\"k\":\"ref\",\"to\":{},\"mut\":{}}}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::Tuple(ts) => {
                format!("{{\"k\":\"tuple\",\"elems\":{}}}", arr(ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>()))
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", shown),
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", shown),
            RigidTy::FnDef(d, a) => {
                let rd = self.rdef(&d);
                let i = match Instance::resolve(d, &a) {
                    Ok(i) => self.inst(i).to_string(),
                    _ => "null".into(),
                };
                format!("{{\"k\":\"fndef\",\"path\":{},\"inst\":{},\"args\":{},\"s\":{}}}", js(&self.path(rd)), i, self.args(&a), shown)
            }
            RigidTy::Closure(d, a) => {
                let rargs = internal(self.tcx, &a);
                let cl = rargs.as_closure();
                let kind = cl.kind();
                let k = match kind {
                    rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
                    rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
                    rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
                };
                let ups: Vec<Ty> = cl.upvar_tys().iter().map(|t| stable(t)).collect();
                let ups = arr(ups.into_iter().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                let i = match Instance::resolve_closure(d, &a, k) {
                    Ok(i) => self.inst(i).to_string(),
                    _ => "null".into(),
                };
                let rd = self.rdef(&d);
                format!(
                    "{{\"k\":\"closure\",\"path\":{},\"kind\":\"{:?}\",\"inst\":{},\"upvars\":{},\"s\":{}}}",
                    js(&self.path(rd)), kind, i, ups, shown
                )
            }
            RigidTy::Adt(d, a) => {
                let rd = self.rdef(&d);
                let krate = self.tcx.crate_name(rd.krate).to_string();
                let kind = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let adt = internal(self.tcx, d);
                let mut vs = vec![];
                // do not expand the internals of std containers
                let expand = true;
                if expand {
                    for v in d.variants_iter() {
                        let discr = if d.kind() == AdtKind::Enum {
                            let dv = d.discriminant_for_variant(v.idx());
                            let bits = match dv.ty.kind() {
                                TyKind::RigidTy(RigidTy::Int(i)) => i.num_bytes() * 8,
                                _ => 0,
                            };
                            if bits > 0 && bits < 128 && dv.val >> (bits - 1) & 1 == 1 {
                                format!("-{}", (1u128 << bits) - dv.val)
                            } else {
                                dv.val.to_string()
                            }
                        } else {
                            "0".into()
                        };
                        let rv = internal(self.tcx, &v);
                        let mut fs = vec![];
                        for (i, f) in v.fields().iter().enumerate() {
                            let rf = &rv.fields[rustc_middle_field(i)];
                            let vis = self.vis(rf.did);
                            fs.push(format!("[{},{},{}]", js(&f.name.to_string()), self.ty(f.ty_with_args(&a)), js(&vis)));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", js(&v.name()), discr, fs.join(",")));
                    }
                }
                let _ = adt;
                let item = self.tcx.item_name(rd).to_string();
                format!(
                    "{{\"k\":\"adt\",\"path\":{},\"item\":{},\"krate\":{},\"adt\":\"{}\",\"args\":{},\"variants\":[{}],\"s\":{}}}",
                    js(&self.path(rd)), js(&item), js(&krate), kind, self.args(&a), vs.join(","), shown
                )
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", shown),
        }
    }

    fn vis(&self, d: RDefId) -> String {
        match self.tcx.visibility(d) {
            rustc_middle::ty::Visibility::Public => "pub".into(),
            rustc_middle::ty::Visibility::Restricted(m) => {
                let m: RDefId = m.into();
                if m.index == CRATE_DEF_INDEX { "crate".into() } else { format!("in {}", self.path(m)) }
            }
        }
    }

    // ---- constants -------------------------------------------------------
    fn decode(&mut self, ty: Ty, al: &Allocation, off: usize, depth: usize) -> String {
        if depth > 12 {
            return "[\"opaque\",\"depth\"]".into();
        }
        let tyid = self.ty(ty);
        let TyKind::RigidTy(r) = ty.kind() else { return format!("[\"opaque\",{}]", tyid) };
        let shape = match ty.layout() {
            Ok(l) => l.shape(),
            Err(_) => return format!("[\"opaque\",{}]", tyid),
        };
        let size = shape.size.bytes();
        let uint = |al: &Allocation, off: usize, n: usize| -> Option<u128> {
            let mut v: u128 = 0;
            for i in 0..n {
                let b = (*al.bytes.get(off + i)?)?;
                v |= (b as u128) << (8 * i);
            }
            Some(v)
        };
        match r {
            RigidTy::Bool => format!("[\"bool\",{}]", uint(al, off, 1).unwrap_or(0) != 0),
            RigidTy::Char => format!("[\"char\",{}]", uint(al, off, 4).unwrap_or(0)),
            RigidTy::Uint(_) | RigidTy::Int(_) => match uint(al, off, size) {
                Some(mut v) => {
                    let mut neg = String::new();
                    if matches!(r, RigidTy::Int(_)) && size < 16 && (v >> (size * 8 - 1)) & 1 == 1 {
                        v = (1u128 << (size * 8)) - v;
                        neg = "-".into();
                    }
                    format!("[\"int\",{}{},{}]", neg, v, tyid)
                }
                None => format!("[\"opaque\",{}]", tyid),
            },
            RigidTy::Tuple(ts) => {
                let mut out = vec![];
                if let FieldsShape::Arbitrary { offsets } = &shape.fields {
                    for (i, t) in ts.iter().enumerate() {
                        out.push(self.decode(*t, al, off + offsets[i].bytes(), depth + 1));
                    }
                }
                format!("[\"tuple\",[{}]]", out.join(","))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut out = vec![];
                for i in 0..n.min(4096) {
                    out.push(self.decode(e, al, off + i * es, depth + 1));
                }
                format!("[\"array\",{},[{}]]", tyid, out.join(","))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => format!("[\"zst\",{}]", tyid),
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.clone());
                let Some(p) = prov else { return format!("[\"opaque\",{}]", tyid) };
                let inner_off = uint(al, off, 8).unwrap_or(0) as usize;
                let meta = if size == 16 { uint(al, off + 8, 8) } else { None };
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => match to.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = meta.unwrap_or(0) as usize;
                            let b: Vec<u8> = m.bytes[inner_off..inner_off + n].iter().map(|x| x.unwrap_or(0)).collect();
                            format!("[\"str\",{}]", js(&String::from_utf8_lossy(&b)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let n = meta.unwrap_or(0) as usize;
                            let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let mut out = vec![];
                            for i in 0..n.min(4096) {
                                out.push(self.decode(e, &m, inner_off + i * es, depth + 1));
                            }
                            format!("[\"sliceref\",{},[{}]]", tyid, out.join(","))
                        }
                        _ => format!("[\"ref\",{},{}]", tyid, self.decode(to, &m, inner_off, depth + 1)),
                    },
                    GlobalAlloc::Function(i) => format!("[\"fn\",{}]", self.inst(i)),
                    GlobalAlloc::Static(s) => {
                        let rd = self.rdef(&s);
                        format!("[\"static\",{}]", js(&self.path(rd)))
                    }
                    _ => format!("[\"opaque\",{}]", tyid),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.clone());
                if let Some(p) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        return format!("[\"fn\",{}]", self.inst(i));
                    }
                }
                format!("[\"opaque\",{}]", tyid)
            }
            RigidTy::Adt(d, a) => {
                if d.kind() == AdtKind::Union {
                    return format!("[\"opaque\",{}]", tyid);
                }
                let (vidx, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (internal(self.tcx, *index).as_usize(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsize = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        // a tag stored in a pointer: provenance means "not the niche"
                        let has_prov = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tagv = uint(al, off + toff, tsize);
                        let v = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tagv else { return format!("[\"opaque\",{}]", tyid) };
                                let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                d.variants_iter()
                                    .position(|v| d.discriminant_for_variant(v.idx()).val & mask == tv)
                                    .unwrap_or(0)
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let start = internal(self.tcx, *niche_variants.start()).as_usize() as u128;
                                let end = internal(self.tcx, *niche_variants.end()).as_usize() as u128;
                                let un = internal(self.tcx, *untagged_variant).as_usize();
                                match tagv {
                                    Some(tv) if !has_prov => {
                                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        if rel <= end - start { (rel + start) as usize } else { un }
                                    }
                                    _ => un,
                                }
                            }
                        };
                        (v, variants[v].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Empty => return format!("[\"opaque\",{}]", tyid),
                };
                let var = d.variants()[vidx].clone();
                let mut out = vec![];
                for (i, f) in var.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&a);
                    let o = offsets.get(i).copied().unwrap_or(0);
                    out.push(self.decode(ft, al, off + o, depth + 1));
                }
                format!("[\"adt\",{},{},[{}]]", tyid, vidx, out.join(","))
            }
            _ => format!("[\"opaque\",{}]", tyid),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        let tyid = self.ty(ty);
        match c.kind() {
            ConstantKind::ZeroSized => {
                // decode zero-sized ADTs structurally, fn items by type
                match ty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::Closure(..)) => format!("[\"zst\",{}]", tyid),
                    _ => {
                        let al = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                        self.decode(ty, &al, 0, 0)
                    }
                }
            }
            ConstantKind::Allocated(a) => self.decode(ty, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => {
                    let (t, a) = (*t, a.clone());
                    self.decode(t, &a, 0, 0)
                }
                TyConstKind::ZSTValue(t) => format!("[\"zst\",{}]", self.ty(*t)),
                _ => match tc.eval_target_usize() {
                    Ok(n) => format!("[\"int\",{},{}]", n, tyid),
                    Err(_) => format!("[\"opaque\",{}]", tyid),
                },
            },
            ConstantKind::Unevaluated(u) => {
                let rd = self.rdef(&u.def);
                format!("[\"uneval\",{},{}]", tyid, js(&self.path(rd)))
            }
            ConstantKind::Param(_) => format!("[\"opaque\",{}]", tyid),
        }
    }

    // ---- bodies ----------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let mut out = vec![];
        for e in &p.projection {
            out.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", internal(self.tcx, *v).as_usize()),
                ProjectionElem::OpaqueCast(_) => "[\"cast\"]".into(),
            });
        }
        format!("[{},[{}]]", p.local, out.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, c) => format!(
                "[\"repeat\",{},{}]",
                self.op(o),
                c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), bk.to_mutable_lossy() == Mutability::Mut),
            Rvalue::Reborrow(_, m, p) => {
                let s = self.place(p);
                format!("[\"reborrow\",{},{}]", s, *m == Mutability::Mut)
            }
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", self.place(p), k.to_mutable_lossy() == Mutability::Mut),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(pc) => format!("PC:{:?}", pc),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", js(&ks), self.op(o), self.ty(*t))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| self.op(o)).collect::<Vec<_>>());
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,{}]", self.ty(*t), ops),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", ops),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        let v = internal(self.tcx, *v).as_usize();
                        match f {
                            Some(f) => format!("[\"agg\",\"union\",{},{},{}]", t, f, ops),
                            None => format!("[\"agg\",\"adt\",{},{},{}]", t, v, ops),
                        }
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"agg\",\"closure\",{},0,{}]", t, ops)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},0,{}]", self.ty(*t), ops),
                    _ => format!("[\"agg\",\"other\",null,0,{}]", ops),
                }
            }
        }
    }
    fn line(&self, s: Span) -> usize {
        s.get_lines().start_line
    }
    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }
    fn body_json(&mut self, b: &Body) -> String {
        let locals = arr(b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        st.push(format!("[\"=\",{},{},{}]", ps, self.rvalue(r), ln))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let v = internal(self.tcx, *variant_index).as_usize();
                        st.push(format!("[\"sd\",{},{},{}]", self.place(place), v, ln))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        st.push(format!("[\"assume\",{},{}]", self.op(o), ln))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st.push(format!(
                        "[\"cno\",{},{},{},{}]",
                        self.op(&c.src), self.op(&c.dst), self.op(&c.count), ln
                    )),
                    _ => {}
                }
            }
            let tl = self.line(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ds = self.op(discr);
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        ds, dt,
                        arr(targets.branches().map(|(v, t)| format!("[{},{}]", v, t))),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(b.locals()).unwrap();
                    let f = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => format!("[\"i\",{},{}]", self.inst(i), self.ty(fty)),
                            Err(_) => format!("[\"u\",{},{}]", js(&format!("{:?}", fty)), self.ty(fty)),
                        },
                        _ => format!("[\"v\",{}]", self.op(func)),
                    };
                    let al = arr(args.iter().map(|a| self.op(a)).collect::<Vec<_>>());
                    let at = arr(args.iter().map(|a| a.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect::<Vec<_>>());
                    let dty = destination.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        f, al, self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        dty, at, Self::unwind(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.op(len), self.op(index)]),
                        AssertMessage::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.op(x), self.op(y)]),
                        AssertMessage::OverflowNeg(x) => ("overflowneg".into(), vec![self.op(x)]),
                        AssertMessage::DivisionByZero(x) => ("div0".into(), vec![self.op(x)]),
                        AssertMessage::RemainderByZero(x) => ("rem0".into(), vec![self.op(x)]),
                        other => (format!("other:{:?}", std::mem::discriminant(other)), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, js(&k), arr(ops), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", st.join(","), t, tl));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, js(&v.name)));
            }
        }
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"names\":[{}],\"blocks\":[{}]}}",
            locals,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            names.join(","),
            blocks.join(",")
        )
    }

    fn inst_json(&mut self, i: Instance) -> String {
        let tcx = self.tcx;
        let rd: RDefId = internal(tcx, i.def.def_id());
        let path = self.path(rd);
        let krate = tcx.crate_name(rd.krate).to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let ri = internal(tcx, i);
        let shown = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", ri)));
        let item = tcx.opt_item_name(rd).map(|s| s.to_string()).unwrap_or_default();
        // container: trait impl / trait default / inherent impl
        let mut tr = "null".to_string();
        let mut self_ty = "null".to_string();
        let mut cont = "null".to_string();
        let mut targs = "[]".to_string();
        if let Some(ai) = tcx.opt_associated_item(rd) {
            let parent = tcx.parent(ai.def_id);
            match tcx.def_kind(parent) {
                rustc_hir::def::DefKind::Trait => {
                    cont = js("trait");
                    tr = js(&self.path(parent));
                    let a = i.args();
                    if let Some(GenericArgKind::Type(t)) = a.0.first() {
                        self_ty = self.ty(*t).to_string();
                    }
                    targs = self.args(&a);
                }
                rustc_hir::def::DefKind::Impl { of_trait: true } => {
                    cont = js("impl_trait");
                    let trr = tcx.impl_trait_ref(parent).skip_binder();
                    tr = js(&self.path(trr.def_id));
                    // instantiate self type
                    let inst_tr = tcx.impl_trait_ref(parent).instantiate(tcx, ri.args).skip_norm_wip();
                    let tys: Vec<Ty> = inst_tr.args.types().map(|t| stable(tcx.erase_and_anonymize_regions(t))).collect();
                    if !tys.is_empty() {
                        self_ty = self.ty(tys[0]).to_string();
                    }
                    targs = arr(tys.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>());
                }
                rustc_hir::def::DefKind::Impl { of_trait: false } => {
                    cont = js("impl");
                    let t = tcx.type_of(parent).instantiate(tcx, ri.args).skip_norm_wip();
                    let t: Ty = stable(tcx.erase_and_anonymize_regions(t));
                    self_ty = self.ty(t).to_string();
                }
                _ => {}
            }
        }
        let a = i.args();
        let args = self.args(&a);
        let is_closure = tcx.is_closure_like(rd);
        let want = ["fuel_tx", "fuel_tx_probe"].contains(&krate.as_str())
            || self.descend.iter().any(|p| p.strip_prefix("crate:") == Some(krate.as_str()))
            || self.descend.iter().any(|p| path.starts_with(p.as_str()) || shown.starts_with(p.as_str()));
        let mut body = "null".to_string();
        if want && i.kind == InstanceKind::Item && tcx.is_mir_available(rd) {
            if let Some(b) = i.body() {
                body = self.body_json(&b);
            }
        }
        let span = tcx.def_span(rd);
        let loc = tcx.sess.source_map().lookup_char_pos(span.lo());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!(
            "{{\"path\":{},\"name\":{},\"krate\":{},\"item\":{},\"kind\":\"{}\",\"cont\":{},\"trait\":{},\"targs\":{},\"self\":{},\"args\":{},\"closure\":{},\"file\":{},\"line\":{},\"body\":{}}}",
            js(&path), js(&shown), js(&krate), js(&item), kind, cont, tr, targs, self_ty, args, is_closure, js(&file), loc.line, body
        )
    }

    fn api_json(&mut self, cnum: rustc_span::def_id::CrateNum) -> String {
        let tcx = self.tcx;
        let n = tcx.num_extern_def_ids(cnum);
        let mut out = vec![];
        // items nameable from outside through public modules and re-exports
        let mut reach: std::collections::HashSet<RDefId> = Default::default();
        let mut todo = vec![RDefId { krate: cnum, index: DefIndex::from_usize(0) }];
        while let Some(m) = todo.pop() {
            if !reach.insert(m) || m.krate != cnum {
                continue;
            }
            if matches!(tcx.def_kind(m), rustc_hir::def::DefKind::Mod) {
                for c in tcx.module_children(m) {
                    if c.vis.is_public() {
                        if let Some(x) = c.res.opt_def_id() {
                            todo.push(x);
                        }
                    }
                }
            }
        }
        for idx in 0..n {
            let d = RDefId { krate: cnum, index: DefIndex::from_usize(idx) };
            let k = tcx.def_kind(d);
            use rustc_hir::def::DefKind::*;
            match k {
                Fn | AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let env = rustc_middle::ty::TypingEnv::post_analysis(tcx, d);
                    let fs = tcx.erase_and_anonymize_regions(sig.skip_binder());
                    let show = |t: rustc_middle::ty::Ty<'_>| js(&with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t))));
                    let norm = |t: rustc_middle::ty::Ty<'tcx>| tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(t)).unwrap_or(t);
                    let ins: Vec<String> = fs.inputs().iter().map(|t| show(norm(*t))).collect();
                    let outp = show(norm(fs.output()));
                    let parent = tcx.parent(d);
                    let (pk, pd) = match tcx.def_kind(parent) {
                        Impl { of_trait } => {
                            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                            let st = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", st)));
                            let tr = if of_trait {
                                let t = tcx.impl_trait_ref(parent).skip_binder();
                                with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t.print_only_trait_path())))
                            } else {
                                "".into()
                            };
                            (if of_trait { "impl_trait" } else { "impl" }, format!("[{},{}]", js(&st), js(&tr)))
                        }
                        Trait => ("trait", format!("[{},\"\"]", js(&self.path(parent)))),
                        _ => ("mod", format!("[{},\"\"]", js(&self.path(parent)))),
                    };
                    out.push(format!(
                        "{{\"k\":\"fn\",\"path\":{},\"item\":{},\"vis\":{},\"pk\":\"{}\",\"parent\":{},\"in\":{},\"out\":{},\"reach\":{},\"mir\":{}}}",
                        js(&self.path(d)), js(&tcx.item_name(d).to_string()), js(&self.vis(d)), pk, pd, arr(ins), outp, pk != "mod" || reach.contains(&d), tcx.is_mir_available(d)
                    ));
                }
                Struct | Enum | Trait | TyAlias | Const{..} | Static { .. } => {
                    out.push(format!("{{\"k\":{},\"path\":{},\"item\":{},\"vis\":{}}}", js(&format!("{:?}", k)), js(&self.path(d)), js(&tcx.item_name(d).to_string()), js(&self.vis(d))));
                }
                Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", st)));
                    let tr = if of_trait {
                        let t = tcx.impl_trait_ref(d).skip_binder();
                        with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t.print_only_trait_path())))
                    } else {
                        "".into()
                    };
                    let assoc: Vec<String> = tcx.associated_item_def_ids(d).iter().map(|x| js(&tcx.item_name(*x).to_string())).collect();
                    out.push(format!("{{\"k\":\"impl\",\"self\":{},\"trait\":{},\"items\":{}}}", js(&st), js(&tr), arr(assoc)));
                }
                _ => {}
            }
        }
        format!("[{}]", out.join(",\n"))
    }
}

fn rustc_middle_field(i: usize) -> rustc_middle_abi::FieldIdx {
    rustc_middle_abi::FieldIdx::from_usize(i)
}
extern crate rustc_abi as rustc_middle_abi;

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let Ok(out) = std::env::var("MIRDUMP_OUT") else { return ControlFlow::Continue(()) };
    let descend = std::env::var("MIRDUMP_DESCEND").unwrap_or_default();
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_list: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        descend: descend.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    // roots: the probe's own functions
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(it) {
            if it.kind() == rustc_public::ItemKind::Fn {
                roots.push(cx.inst(i));
            }
        }
    }
    // roots: every non-generic function of fuel_tx
    let mut api = "[]".to_string();
    for &cnum in tcx.crates(()) {
        if tcx.crate_name(cnum).as_str() != "fuel_tx" {
            continue;
        }
        let n = tcx.num_extern_def_ids(cnum);
        for idx in 0..n {
            let d = RDefId { krate: cnum, index: DefIndex::from_usize(idx) };
            use rustc_hir::def::DefKind::*;
            if !matches!(tcx.def_kind(d), Fn | AssocFn) || !tcx.is_mir_available(d) {
                continue;
            }
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            let inst = rustc_middle::ty::Instance::mono(tcx, d);
            let si: Instance = stable(inst);
            cx.inst(si);
        }
        api = cx.api_json(cnum);
    }
    let mut f = String::new();
    f.push_str("{\"insts\":[\n");
    let mut i = 0;
    while i < cx.inst_list.len() {
        let inst = cx.inst_list[i];
        let j = cx.inst_json(inst);
        if i > 0 {
            f.push_str(",\n");
        }
        f.push_str(&j);
        i += 1;
        // types may hold further instances (closures, fn items): keep draining
        if i == cx.inst_list.len() {
            let mut t = 0;
            while t < cx.ty_list.len() {
                let ty = cx.ty_list[t];
                let _ = cx.ty_json(ty);
                t += 1;
            }
        }
    }
    f.push_str("],\n\"types\":[\n");
    let mut t = 0;
    while t < cx.ty_list.len() {
        let ty = cx.ty_list[t];
        if t > 0 {
            f.push_str(",\n");
        }
        let j = cx.ty_json(ty);
        let name = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", internal(tcx, ty))));
        f.push_str(&format!("[{},{}]", js(&name), j));
        t += 1;
    }
    f.push_str("],\n\"api\":");
    f.push_str(&api);
    let _ = write!(f, ",\n\"roots\":{}}}\n", arr(roots.iter().map(|r| r.to_string())));
    std::fs::write(&out, f).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone());
    if crate_name.as_deref() == Some("fuel_tx_probe") {
        let r = rustc_public::run_with_tcx!(&args, dump);
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    struct Nop;
    impl rustc_driver::Callbacks for Nop {}
    let c = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    let _ = c;
}
