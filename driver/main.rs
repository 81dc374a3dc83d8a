// MIR dumper: run as RUSTC_WORKSPACE_WRAPPER; type-checks the crate with rustc and writes the
// monomorphic MIR of every local function (and of what it reaches) as JSON.  Nothing is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate serde_json;

use rustc_public::abi::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    types: BTreeMap<usize, Value>,
    consts: Vec<Value>,
    const_ix: HashMap<MirConst, usize>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    keys: HashMap<Instance, String>,
    names: HashMap<String, usize>,
}

fn span_json(s: Span) -> Value {
    let l = s.get_lines();
    json!([s.get_filename(), l.start_line])
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
        TyKind::RigidTy(RigidTy::Adt(_, ga)) => ga.0.iter().find_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }),
        _ => None,
    }
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        let ix = t.to_index();
        if self.types.contains_key(&ix) {
            return ix;
        }
        self.types.insert(ix, Value::Null);
        let k = t.kind();
        let v = match &k {
            TyKind::RigidTy(r) => self.rigid(t, r),
            _ => json!({"k":"other","s":format!("{}", t)}),
        };
        self.types.insert(ix, v);
        ix
    }
    fn gargs(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(json!(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(json!({"c": format!("{}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into()))})),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        Value::Array(v)
    }
    fn rigid(&mut self, t: Ty, r: &RigidTy) -> Value {
        let s = format!("{}", t);
        match r {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","signed":true,"bits":i.num_bytes()*8}),
            RigidTy::Uint(i) => json!({"k":"int","signed":false,"bits":i.num_bytes()*8}),
            RigidTy::Float(f) => json!({"k":"float","bits":match f { FloatTy::F16=>16,FloatTy::F32=>32,FloatTy::F64=>64,FloatTy::F128=>128}}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Array(e, n) => {
                let e = self.ty(*e);
                json!({"k":"array","e":e,"n":n.eval_target_usize().ok()})
            }
            RigidTy::Slice(e) => {
                let e = self.ty(*e);
                json!({"k":"slice","e":e})
            }
            RigidTy::RawPtr(e, m) => {
                let e = self.ty(*e);
                json!({"k":"ptr","e":e,"mut":*m==Mutability::Mut})
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(*e);
                json!({"k":"ref","e":e,"mut":*m==Mutability::Mut})
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<usize> = ts.iter().map(|x| self.ty(*x)).collect();
                json!({"k":"tuple","f":v})
            }
            RigidTy::FnDef(d, a) => {
                let ga = self.gargs(a);
                json!({"k":"fndef","name":d.name(),"args":ga,"s":s})
            }
            RigidTy::FnPtr(_) => json!({"k":"fnptr","s":s}),
            RigidTy::Closure(d, a) => {
                let ga = self.gargs(a);
                json!({"k":"closure","name":d.name(),"args":ga,"s":s,"up":self.closure_up(a)})
            }
            RigidTy::Dynamic(..) => json!({"k":"dyn","s":s}),
            RigidTy::Pat(b, _) => { let b = self.ty(*b); json!({"k":"pat","e":b,"s":s}) }
            RigidTy::Adt(d, a) => {
                let mut vs = vec![];
                let kind = d.kind();
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(a);
                        fs.push(json!([f.name.clone(), self.ty(ft)]));
                    }
                    let disc = if kind == AdtKind::Enum { json!(d.discriminant_for_variant(v.idx()).val.to_string()) } else { Value::Null };
                    vs.push(json!({"name":v.name(),"f":fs,"d":disc}));
                }
                let ga = self.gargs(a);
                json!({"k":"adt","name":d.name(),"s":s,"kind":format!("{:?}",kind),"v":vs,"args":ga,"box":d.is_box(),"local":d.krate().is_local,"krate":d.krate().name})
            }
            _ => json!({"k":"other","s":s}),
        }
    }
    fn closure_up(&mut self, a: &GenericArgs) -> Value {
        // last generic arg of a closure is the tuple of upvar types
        if let Some(GenericArgKind::Type(t)) = a.0.last() {
            return json!(self.ty(*t));
        }
        Value::Null
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Result<Value, String> {
        if depth > 40 {
            return Err("depth".into());
        }
        let k = t.kind();
        let r = match &k {
            TyKind::RigidTy(r) => r.clone(),
            _ => return Err(format!("type {}", t)),
        };
        let rd = |o: usize, n: usize| -> Result<u128, String> { a.read_partial_uint(o..o + n).map_err(|e| format!("{:?}", e)) };
        let shape = t.layout().map_err(|e| format!("{:?}", e))?.shape();
        let size = shape.size.bytes();
        Ok(match &r {
            RigidTy::Bool => json!({"b": rd(off,1)? != 0}),
            RigidTy::Char => json!({"c": rd(off,4)? as u64}),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let u = rd(off, n)?;
                let sh = 128 - 8 * n as u32;
                let s = ((u << sh) as i128) >> sh;
                json!({"i": s.to_string()})
            }
            RigidTy::Uint(i) => json!({"i": rd(off,i.num_bytes())?.to_string()}),
            RigidTy::Float(f) => {
                let n = match f { FloatTy::F16=>2,FloatTy::F32=>4,FloatTy::F64=>8,FloatTy::F128=>16};
                json!({"f": format!("{:x}", rd(off,n)?), "w": n*8})
            }
            RigidTy::Tuple(ts) => {
                let mut v = vec![];
                for (i, x) in ts.iter().enumerate() {
                    let o = match &shape.fields { FieldsShape::Arbitrary{offsets} => offsets[i].bytes(), _ => 0 };
                    v.push(self.decode(*x, a, off + o, depth + 1)?);
                }
                json!({"t": v})
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map_err(|e| format!("{:?}", e))? as usize;
                let es = e.layout().map_err(|e| format!("{:?}", e))?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(*e, a, off + i * es, depth + 1)?);
                }
                json!({"a": v})
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.decode_ptr(*e, a, off, depth)?,
            RigidTy::FnDef(d, ga) => json!({"fn": self.resolve(*d, ga)}),
            RigidTy::FnPtr(_) => {
                let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).ok_or("fnptr prov")?;
                match GlobalAlloc::from(p.1 .0) {
                    GlobalAlloc::Function(i) => json!({"fnptr": self.inst(i)}),
                    x => return Err(format!("fnptr {:?}", x)),
                }
            }
            RigidTy::Closure(..) if size == 0 => json!({"closure": []}),
            RigidTy::Pat(b, _) => self.decode(*b, a, off, depth + 1)?,
            RigidTy::Adt(d, ga) => {
                let vars = d.variants();
                if d.kind() == AdtKind::Union {
                    return Err("union".into());
                }
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return Err("empty".into()),
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields { FieldsShape::Arbitrary{offsets} => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![0; 8] };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let prim = match tag { Scalar::Initialized{value,..} => value, Scalar::Union{value} => value };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let to = match &shape.fields { FieldsShape::Arbitrary{offsets} => offsets[*tag_field].bytes(), _ => 0 };
                        // pointers with provenance: never a niche value
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                        let tagv = if has_prov { None } else { Some(rd(off + to, tsz)?) };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = tagv.ok_or("tag prov")?;
                                let mask: u128 = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let mut f = None;
                                for v in &vars {
                                    if d.discriminant_for_variant(v.idx()).val & mask == tv {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                f.ok_or("tag")?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match tagv {
                                None => untagged_variant.to_index(),
                                Some(tv) => {
                                    let mask: u128 = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let cnt = niche_variants.end().to_index() - niche_variants.start().to_index();
                                    if rel <= cnt as u128 { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                                }
                            },
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let mut v = vec![];
                for (i, f) in vars[vi].fields().iter().enumerate() {
                    let ft = f.ty_with_args(ga);
                    v.push(self.decode(ft, a, off + offs[i], depth + 1)?);
                }
                json!({"v": vi, "fs": v})
            }
            _ => return Err(format!("const of type {}", t)),
        })
    }
    fn decode_ptr(&mut self, e: Ty, a: &Allocation, off: usize, depth: usize) -> Result<Value, String> {
        let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
        let inner = a.read_partial_uint(off..off + 8).map_err(|x| format!("{:?}", x))? as usize;
        let p = match p {
            Some(p) => p,
            None => return Ok(json!({"rawptr": inner as u64})),
        };
        let ga = GlobalAlloc::from(p.1 .0);
        let mem = match ga {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(s) => {
                let ini = s.eval_initializer().map_err(|x| format!("{:?}", x))?;
                let it = s.ty();
                // the declared type with its lengths evaluated
                let it = rustc_middle::ty::tls::with(|tcx| {
                    let t = rustc_public::rustc_internal::internal(tcx, it);
                    rustc_public::rustc_internal::stable(tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(t)))
                });
                let v = self.decode(it, &ini, inner, depth + 1).unwrap_or_else(|e| json!({"opaque": format!("static: {}", e)}));
                return Ok(json!({"static": s.name(), "ref": v}));
            }
            GlobalAlloc::Function(i) => return Ok(json!({"fnptr": self.inst(i)})),
            x => return Err(format!("{:?}", x)),
        };
        let ek = e.kind();
        match &ek {
            TyKind::RigidTy(RigidTy::Str) => {
                let n = a.read_partial_uint(off + 8..off + 16).map_err(|x| format!("{:?}", x))? as usize;
                let b: Vec<u8> = mem.bytes[inner..inner + n].iter().map(|x| x.unwrap_or(0)).collect();
                Ok(json!({"str": b}))
            }
            TyKind::RigidTy(RigidTy::Slice(el)) => {
                let n = a.read_partial_uint(off + 8..off + 16).map_err(|x| format!("{:?}", x))? as usize;
                let es = el.layout().map_err(|x| format!("{:?}", x))?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(*el, &mem, inner + i * es, depth + 1)?);
                }
                Ok(json!({"ref": {"a": v}}))
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => Err("dyn".into()),
            _ => {
                // raw bytes are kept as well: format templates are passed as &[u8; N]
                Ok(json!({"ref": self.decode(e, &mem, inner, depth + 1)?}))
            }
        }
    }
    fn konst(&mut self, c: &MirConst) -> usize {
        if let Some(i) = self.const_ix.get(c) {
            return *i;
        }
        let t = c.ty();
        let tix = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.decode(*t2, a, 0, 0),
                TyConstKind::ZSTValue(t2) => self.zst(*t2),
                _ => tc.eval_target_usize().map(|x| json!({"i": x.to_string()})).map_err(|e| format!("{:?}", e)),
            },
            k => Err(format!("{:?}", k)),
        };
        let v = match v {
            Ok(v) => v,
            Err(e) => json!({"opaque": e.chars().take(200).collect::<String>()}),
        };
        let i = self.consts.len();
        self.consts.push(json!({"ty": tix, "v": v}));
        self.const_ix.insert(c.clone(), i);
        i
    }
    fn zst(&mut self, t: Ty) -> Result<Value, String> {
        let k = t.kind();
        Ok(match &k {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => json!({"fn": self.resolve(*d, a)}),
            TyKind::RigidTy(RigidTy::Closure(..)) => json!({"closure": []}),
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let mut v = vec![];
                for x in ts { v.push(self.zst(*x)?); }
                json!({"t": v})
            }
            TyKind::RigidTy(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().map_err(|e| format!("{:?}", e))?;
                let mut v = vec![];
                for _ in 0..n { v.push(self.zst(*e)?); }
                json!({"a": v})
            }
            TyKind::RigidTy(RigidTy::Adt(d, ga)) => {
                let vs = d.variants();
                if vs.is_empty() { return Err("uninhabited".into()); }
                let mut v = vec![];
                for f in vs[0].fields() { v.push(self.zst(f.ty_with_args(ga))?); }
                json!({"v": 0, "fs": v})
            }
            _ => return Err(format!("zst {}", t)),
        })
    }
    fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> Value {
        let ga = self.gargs(a);
        let assoc = d.associated_item();
        let tr = assoc.as_ref().and_then(|x| match &x.container { AssocContainer::Trait => Some("trait"), AssocContainer::InherentImpl => Some("inherent"), AssocContainer::TraitImpl(_) => Some("traitimpl") });
        let sig = d.fn_sig();
        let unsafe_ = sig.value.safety == Safety::Unsafe;
        let mut m = Map::new();
        m.insert("def".into(), json!(d.name()));
        m.insert("krate".into(), json!(d.krate().name));
        m.insert("args".into(), ga);
        m.insert("assoc".into(), json!(tr));
        m.insert("unsafe".into(), json!(unsafe_));
        match Instance::resolve(d, a) {
            Ok(i) => {
                m.insert("kind".into(), json!(format!("{:?}", i.kind)));
                m.insert("intrinsic".into(), json!(i.intrinsic_name()));
                m.insert("empty".into(), json!(i.is_empty_shim()));
                m.insert("iname".into(), json!(i.name()));
                let key = self.inst(i);
                m.insert("key".into(), json!(key));
            }
            Err(e) => {
                m.insert("err".into(), json!(format!("{:?}", e)));
            }
        }
        Value::Object(m)
    }
    // the methods a trait object made here can be called with
    fn vtable(&mut self, from: Ty, to: Ty) -> Value {
        let (f, t) = match (pointee(from), pointee(to)) {
            (Some(f), Some(t)) => (f, t),
            _ => return Value::Null,
        };
        let preds = match t.kind() {
            TyKind::RigidTy(RigidTy::Dynamic(p, _)) => p,
            _ => return Value::Null,
        };
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = f.kind() {
            return Value::Null;
        }
        if let TyKind::RigidTy(RigidTy::Closure(d, ga)) = f.kind() {
            let n = ga.0.len();
            let kind = match ga.0.get(n.wrapping_sub(3)) {
                Some(GenericArgKind::Type(k)) => match k.kind() {
                    TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn,
                    TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
                    _ => ClosureKind::FnOnce,
                },
                _ => ClosureKind::FnOnce,
            };
            if let Ok(i) = Instance::resolve_closure(d, &ga, kind) {
                self.inst(i);
            }
        }
        let mut v = vec![];
        for p in &preds {
            if let ExistentialPredicate::Trait(_) = &p.value {
                // the entries of the trait with its bound lifetimes erased
                let ms: Vec<Option<Instance>> = rustc_middle::ty::tls::with(|tcx| {
                    let ip = rustc_public::rustc_internal::internal(tcx, p.clone());
                    let sf = tcx.erase_and_anonymize_regions(rustc_public::rustc_internal::internal(tcx, f));
                    match tcx.instantiate_bound_regions_with_erased(ip) {
                        rustc_middle::ty::ExistentialPredicate::Trait(tr) => {
                            let tr = tcx.erase_and_anonymize_regions(tr.with_self_ty(tcx, sf));
                            tcx.vtable_entries(tr).iter().map(|e| match e {
                                rustc_middle::ty::VtblEntry::Method(i) => Some(rustc_public::rustc_internal::stable(*i)),
                                _ => None,
                            }).collect()
                        }
                        _ => vec![],
                    }
                });
                for m in ms {
                    v.push(match m {
                        Some(i) => json!(self.inst(i)),
                        None => Value::Null,
                    });
                }
            }
        }
        let di = Instance::resolve_drop_in_place(f);
        let dk = if di.is_empty_shim() { Value::Null } else { json!(self.inst(di)) };
        json!({"from": self.ty(f), "to": self.ty(t), "vt": v, "drop": dk})
    }
    fn inst(&mut self, i: Instance) -> String {
        if let Some(k) = self.keys.get(&i) {
            return k.clone();
        }
        // key: the fully monomorphised path; made unique when two instances share it
        let n = if let InstanceKind::Virtual { idx } = i.kind { format!("virtual{}::{}", idx, i.name()) } else { i.name() };
        let n = format!("{}{}", if i.kind == InstanceKind::Shim { "shim " } else { "" }, n);
        let c = self.names.entry(n.clone()).or_insert(0);
        let k = if *c == 0 { n.clone() } else { format!("{}#{}", n, c) };
        *c += 1;
        self.keys.insert(i, k.clone());
        self.queue.push_back(i);
        k
    }
    fn place(&mut self, p: &Place) -> Value {
        if p.projection.is_empty() {
            return json!([p.local]);
        }
        let mut v = vec![json!(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => json!(["d"]),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["v", v.to_index()]),
                ProjectionElem::OpaqueCast(t) => json!(["oc", self.ty(*t)]),
            });
        }
        Value::Array(v)
    }
    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => json!(["rc", format!("{:?}", r)]),
        }
    }
    fn ops(&mut self, o: &[Operand]) -> Value {
        Value::Array(o.iter().map(|x| self.op(x)).collect())
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::AddressOf(k, p) => json!(["addr", format!("{:?}", k), self.place(p)]),
            Rvalue::Aggregate(k, os) => {
                let o = self.ops(os);
                match k {
                    AggregateKind::Array(t) => json!(["agg", "array", o, self.ty(*t)]),
                    AggregateKind::Tuple => json!(["agg", "tuple", o]),
                    AggregateKind::Adt(d, vi, ga, _, fi) => {
                        let t = d.ty_with_args(ga);
                        json!(["agg", "adt", o, self.ty(t), vi.to_index(), fi])
                    }
                    AggregateKind::Closure(d, ga) => {
                        let t = Ty::new_closure(*d, ga.clone());
                        json!(["agg", "closure", o, self.ty(t)])
                    }
                    AggregateKind::RawPtr(t, _) => json!(["agg", "rawptr", o, self.ty(*t)]),
                    k => json!(["agg", "other", o, format!("{:?}", k)]),
                }
            }
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["cbin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::Cast(k, o, t) => {
                let ks = match k { CastKind::PointerCoercion(c) => format!("Coerce:{:?}", c), k => format!("{:?}", k) };
                // function items reified / closures turned to fn pointers
                let mut extra = Value::Null;
                if let CastKind::PointerCoercion(c) = k {
                    if let Operand::Constant(cc) = o {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = cc.ty().kind() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &ga) { extra = json!(self.inst(i)); }
                        }
                    }
                    if let rustc_public::mir::PointerCoercion::ClosureFnPointer(_) = c {
                        if let Ok(t) = o.ty(locals) {
                            if let TyKind::RigidTy(RigidTy::Closure(d, ga)) = t.kind() {
                                if let Ok(i) = Instance::resolve_closure(d, &ga, ClosureKind::FnOnce) { extra = json!(self.inst(i)); }
                            }
                        }
                    }
                }
                if let CastKind::PointerCoercion(rustc_public::mir::PointerCoercion::Unsize) = k {
                    if let Ok(f) = o.ty(locals) {
                        extra = self.vtable(f, *t);
                    }
                }
                json!(["cast", ks, self.op(o), self.ty(*t), extra])
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(p)]]),
            Rvalue::Discriminant(p) => json!(["disc", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Ref(_, bk, p) => json!(["ref", match bk { BorrowKind::Mut{..} => "mut", BorrowKind::Shared => "shared", _ => "fake" }, self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["rep", self.op(o), n.eval_target_usize().ok()]),
            Rvalue::ThreadLocalRef(i) => json!(["tls", i.name()]),
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), self.op(o)]),
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
            Rvalue::Reborrow(t, _, p) => json!(["reborrow", self.place(p), self.ty(*t)]),
        }
    }
    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(json!(["=", ln, self.place(p), self.rv(r, b.locals())])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(json!(["setd", ln, self.place(place), variant_index.to_index()])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(json!(["assume", ln, self.op(o)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st.push(json!(["copy", ln, self.op(&c.src), self.op(&c.dst), self.op(&c.count)])),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let sp = span_json(t.source_info.span);
            let tv = match &t.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                    json!(["switch", self.op(discr), br, targets.otherwise()])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["return"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).ok();
                    let (tix, empty, key) = match t {
                        Some(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            let e = i.is_empty_shim();
                            (json!(self.ty(t)), e, if e { Value::Null } else { json!(self.inst(i)) })
                        }
                        None => (Value::Null, false, Value::Null),
                    };
                    json!(["drop", self.place(place), target, tix, empty, key])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a = self.ops(args);
                    let d = self.place(destination);
                    let ft = func.ty(b.locals()).ok();
                    let f = match ft.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(fd, ga))) => self.resolve(fd, &ga),
                        _ => json!({"ptr": self.op(func)}),
                    };
                    json!(["call", f, a, d, target])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<&Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                        AssertMessage::Overflow(b, x, y) => (format!("Overflow:{:?}", b), vec![x, y]),
                        AssertMessage::OverflowNeg(x) => ("OverflowNeg".into(), vec![x]),
                        AssertMessage::DivisionByZero(x) => ("DivisionByZero".into(), vec![x]),
                        AssertMessage::RemainderByZero(x) => ("RemainderByZero".into(), vec![x]),
                        m => (format!("Other:{:?}", m).chars().take(60).collect(), vec![]),
                    };
                    let o: Vec<Value> = ops.into_iter().map(|x| self.op(x)).collect();
                    json!(["assert", self.op(cond), expected, kind, o, target])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            blocks.push(json!({"s": st, "t": tv, "sp": sp}));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(json!([v.name, self.place(p), v.argument_index]));
            }
        }
        json!({"locals": locals, "argc": b.arg_locals().len(), "spread": b.spread_arg(), "blocks": blocks, "dbg": dbg, "span": span_json(b.span)})
    }
}

fn descend(name: &str, local: bool) -> bool {
    if local {
        return true;
    }
    // formatting, panicking and allocation machinery is modelled (or refused), not analysed
    for p in ["core::panicking", "std::panicking", "core::fmt::", "std::fmt::", "alloc::fmt", "std::io::", "std::rt::", "alloc::raw_vec", "std::alloc", "alloc::alloc", "std::sys", "std::env", "std::process", "std::backtrace", "anyhow::", "pico_args::", "std::thread", "core::str::", "std::str::"] {
        if name.starts_with(p) || name.starts_with(&format!("<{}", p)) {
            return false;
        }
    }
    true
}

fn analyze<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>) -> ControlFlow<()> {
    let dir = match std::env::var("TOFAS_DUMP_DIR") {
        Ok(d) => d,
        Err(_) => return ControlFlow::Continue(()),
    };
    let krate = local_crate();
    let cty = format!("{:?}", tcx.crate_types().first());
    let mut cx = Cx { types: BTreeMap::new(), consts: vec![], const_ix: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), keys: HashMap::new(), names: HashMap::new() };
    // names under which a module gives out what is defined elsewhere in the crate
    let mut reexports = vec![];
    rustc_middle::ty::print::with_no_trimmed_paths!(tcx.hir_for_each_module(|m| {
        let path = tcx.def_path_str(m.to_def_id());
        for c in tcx.module_children_local(m.to_local_def_id()) {
            if let rustc_hir::def::Res::Def(k, d) = c.res {
                use rustc_hir::def::DefKind::*;
                if d.is_local() && matches!(k, Fn | Const { .. } | Static { .. } | Struct | Enum | Trait | TyAlias) {
                    let q = format!("{}::{}", krate.name, tcx.def_path_str(d));
                    let p = if path.is_empty() || path == "crate" { format!("{}::{}", krate.name, c.ident) } else { format!("{}::{}::{}", krate.name, path, c.ident) };
                    if p != q {
                        reexports.push(json!([p, q]));
                    }
                }
            }
        }
    }));
    let mut items = vec![];
    for it in all_local_items() {
        let kind = format!("{:?}", it.kind());
        let mono = !it.requires_monomorphization();
        let mut key = Value::Null;
        let mut sig = Value::Null;
        let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
        let dk = tcx.def_kind(did);
        let vis = { use rustc_hir::def::DefKind::*; matches!(dk, Fn | AssocFn | Const { .. } | Static { .. } | Ctor(..)) && tcx.visibility(did).is_public() };
        let reach = did.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
            let s = d.fn_sig();
            let i: Vec<usize> = s.value.inputs_and_output.iter().map(|t| cx.ty(*t)).collect();
            sig = json!({"io": i, "unsafe": s.value.safety == Safety::Unsafe, "abi": format!("{:?}", s.value.abi)});
        }
        if mono && matches!(it.kind(), ItemKind::Fn) {
            if let Ok(i) = Instance::try_from(it) {
                key = json!(cx.inst(i));
            }
        }
        let mut val = Value::Null;
        if matches!(it.kind(), ItemKind::Const) && mono {
            if let Ok(i) = Instance::try_from(it) {
                let t = it.ty();
                cx.ty(t);
                if let Ok(a) = i.try_const_eval(t) {
                    val = match cx.decode(t, &a, 0, 0) { Ok(v) => v, Err(e) => json!({"opaque": e}) };
                }
            }
        }
        let t = cx.ty(it.ty());
        items.push(json!({"name": it.name(), "kind": kind, "ty": t, "mono": mono, "key": key, "sig": sig, "pub": vis, "reach": reach, "val": val, "span": span_json(it.span())}));
    }
    let mut statics = vec![];
    for s in krate.statics() {
        let t = cx.ty(s.ty());
        let did = rustc_public::rustc_internal::internal(tcx, s.def_id());
        let mutable = tcx.static_mutability(did) == Some(rustc_hir::Mutability::Mut);
        statics.push(json!({"name": s.name(), "ty": t, "mut": mutable, "span": span_json(s.span())}));
    }
    let mut impls = vec![];
    for im in krate.trait_impls() {
        let ti = im.trait_impl();
        let tr = ti.value;
        let st = tr.self_ty();
        let a = cx.gargs(tr.args());
        let sti = cx.ty(st);
        impls.push(json!({"trait": tr.def_id.name(), "self": sti, "self_s": format!("{}", st), "args": a, "args_s": tr.args().0.iter().map(|g| match g { GenericArgKind::Type(t) => format!("{}", t), _ => "'".to_string() }).collect::<Vec<_>>(), "span": span_json(im.span())}));
    }
    let mut adts = vec![];
    for a in krate.adts() {
        let t = cx.ty(a.ty());
        let did = rustc_public::rustc_internal::internal(tcx, a.def_id());
        let mut fvis = vec![];
        for v in tcx.adt_def(did).variants() {
            for f in &v.fields {
                fvis.push(json!([f.name.to_string(), f.vis.is_public()]));
            }
        }
        adts.push(json!({"name": a.name(), "ty": t, "pub": tcx.visibility(did).is_public(), "fvis": fvis, "span": span_json(a.span())}));
    }
    let mut foreign = 0;
    for fm in krate.foreign_modules() {
        foreign += fm.module().items().len();
    }
    let mut fns = Map::new();
    while let Some(i) = cx.queue.pop_front() {
        let key = cx.keys.get(&i).unwrap().clone();
        if !cx.seen.insert(key.clone()) {
            continue;
        }
        let name = i.name();
        let local = i.def.krate().is_local;
        let kr = i.def.krate().name;
        let intr = i.intrinsic_name();
        let mut m = Map::new();
        m.insert("name".into(), json!(name));
        m.insert("def".into(), json!(i.def.name()));
        m.insert("krate".into(), json!(kr));
        m.insert("local".into(), json!(local));
        m.insert("kind".into(), json!(format!("{:?}", i.kind)));
        m.insert("intrinsic".into(), json!(intr));
        m.insert("mangled".into(), json!(i.mangled_name()));
        let ga = cx.gargs(&i.args());
        m.insert("args".into(), ga);
        let shim_ok = i.kind == InstanceKind::Shim;
        if (i.has_body() || shim_ok) && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) && descend(&i.def.name(), local) {
            let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body()));
            if let Ok(Some(b)) = b {
                let bj = cx.body(&b);
                m.insert("body".into(), bj);
            }
        }
        fns.insert(key, Value::Object(m));
    }
    let types: Map<String, Value> = cx.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let tnames: Map<String, Value> = cx.types.keys().map(|k| (k.to_string(), json!(format!("{}", Ty::to_val(*k))))).collect();
    let out = json!({"crate": krate.name, "crate_type": cty, "types": types, "tnames": tnames, "consts": cx.consts, "items": items, "statics": statics, "impls": impls, "adts": adts, "foreign": foreign, "fns": fns});
    let suffix = if cty.contains("Executable") { "bin" } else { "lib" };
    let f = format!("{}/{}.{}.json", dir, krate.name, suffix);
    std::fs::write(format!("{}/{}.{}.names", dir, krate.name, suffix), serde_json::to_vec(&reexports).unwrap()).unwrap();
    std::fs::write(&f, serde_json::to_vec(&out).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let r = rustc_public::run_with_tcx!(&args, analyze);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
