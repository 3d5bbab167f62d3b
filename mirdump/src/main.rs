//! rustc wrapper: compiles the crate named `vroots` in-process and writes the monomorphic MIR of every
//! function reachable from its functions as JSON (to $MIRDUMP_OUT). Any other crate is passed to rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde_json;

use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{run, CrateDef, CrateDefType};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Dump {
    types: BTreeMap<u64, Value>,
    pending_ty: VecDeque<Ty>,
    allocs: BTreeMap<u64, Value>,
    fns: BTreeMap<String, Value>,
    queue: VecDeque<Instance>,
    seen: BTreeSet<String>,
}

fn id<T: serde_ser::Ser>(t: &T) -> u64 { t.idx() }
mod serde_ser {
    use super::*;
    pub trait Ser { fn idx(&self) -> u64; }
    impl Ser for Ty { fn idx(&self) -> u64 { serde_json::to_value(self).unwrap().as_u64().unwrap() } }
    impl Ser for rustc_public::mir::alloc::AllocId {
        fn idx(&self) -> u64 { serde_json::to_value(self).unwrap().as_u64().unwrap() }
    }
}

fn hex(b: &[Option<u8>]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { match x { Some(v) => s.push_str(&format!("{:02x}", v)), None => s.push_str("??") } }
    s
}

struct V<'a> { d: &'a mut Dump }
impl<'a> MirVisitor for V<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) { self.d.ty(*ty); self.super_ty(ty); }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        self.d.ty(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() { self.d.alloc_prov(a); }
        self.super_mir_const(c, l);
    }
}

impl Dump {
    fn ty(&mut self, t: Ty) -> u64 {
        let i = id(&t);
        if !self.types.contains_key(&i) { self.types.insert(i, Value::Null); self.pending_ty.push_back(t); }
        i
    }
    fn alloc_prov(&mut self, a: &Allocation) {
        for (_, p) in a.provenance.ptrs.iter() { self.alloc(p.0); }
    }
    fn alloc_json(&mut self, a: &Allocation) -> Value {
        self.alloc_prov(a);
        let prov: Vec<Value> = a.provenance.ptrs.iter().map(|(o, p)| json!([o, id(&p.0)])).collect();
        json!({"hex": hex(&a.bytes), "prov": prov})
    }
    fn alloc(&mut self, a: rustc_public::mir::alloc::AllocId) {
        let i = id(&a);
        if self.allocs.contains_key(&i) { return; }
        self.allocs.insert(i, Value::Null);
        let v = match GlobalAlloc::from(a) {
            GlobalAlloc::Function(inst) => { let k = self.inst(inst); json!({"kind":"fn","inst":k}) }
            GlobalAlloc::VTable(..) => json!({"kind":"vtable"}),
            GlobalAlloc::Static(s) => {
                let t = self.ty(s.ty());
                let init = match s.eval_initializer() { Ok(a) => self.alloc_json(&a), Err(_) => Value::Null };
                json!({"kind":"static","name":s.name(),"ty":t,"init":init})
            }
            GlobalAlloc::Memory(m) => { let j = self.alloc_json(&m); json!({"kind":"mem","init":j}) }
            GlobalAlloc::TypeId{..} => json!({"kind":"typeid"}),
        };
        self.allocs.insert(i, v);
    }
    fn inst(&mut self, i: Instance) -> String {
        let k = i.mangled_name();
        if self.seen.insert(k.clone()) { self.queue.push_back(i); }
        k
    }
    fn layout(&mut self, t: Ty) -> Value {
        let Ok(l) = t.layout() else { return Value::Null };
        let s = l.shape();
        let fields = match &s.fields {
            FieldsShape::Arbitrary { offsets, .. } => json!(offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()),
            FieldsShape::Array { stride, count } => json!({"stride": stride.bytes(), "count": count}),
            _ => Value::Null,
        };
        let variants = match &s.variants {
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let enc = match tag_encoding {
                    TagEncoding::Direct => json!("direct"),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => json!({
                        "untagged": serde_json::to_value(untagged_variant).unwrap(),
                        "from": serde_json::to_value(niche_variants.start()).unwrap(),
                        "to": serde_json::to_value(niche_variants.end()).unwrap(),
                        "start": niche_start.to_string()}),
                };
                json!({"tag": serde_json::to_value(tag).unwrap(), "enc": enc, "tag_field": tag_field,
                       "offs": variants.iter().map(|v| v.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()).collect::<Vec<_>>()})
            }
            VariantsShape::Single { index } => json!({"single": serde_json::to_value(index).unwrap()}),
            _ => Value::Null,
        };
        json!({"size": s.size.bytes(), "align": s.abi_align, "fields": fields, "variants": variants})
    }
    fn desc(&mut self, t: Ty) -> Value {
        let name = format!("{}", t);
        let lay = self.layout(t);
        let kind = t.kind();
        let body = match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bits": i.num_bytes()*8,"signed":true}),
                RigidTy::Uint(i) => json!({"k":"int","bits": i.num_bytes()*8,"signed":false}),
                RigidTy::Float(_) => json!({"k":"float"}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Array(e, n) => { let e = self.ty(e); json!({"k":"array","elem":e,"len":n.eval_target_usize().ok()}) }
                RigidTy::Slice(e) => { let e = self.ty(e); json!({"k":"slice","elem":e}) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); json!({"k":"ref","to":e,"mut":m==Mutability::Mut}) }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); json!({"k":"ptr","to":e,"mut":m==Mutability::Mut}) }
                RigidTy::Tuple(ts) => { let v: Vec<u64> = ts.iter().map(|t| self.ty(*t)).collect(); json!({"k":"tuple","fields":v}) }
                RigidTy::FnDef(def, args) => {
                    let inst = Instance::resolve(def, &args).ok().map(|i| self.inst(i));
                    json!({"k":"fndef","path":def.name(),"inst":inst,"args":self.args(&args)})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(def, args) => {
                    let up = match args.0.last() { Some(GenericArgKind::Type(t)) => self.ty(*t), _ => 0 };
                    let inst = Instance::resolve_closure(def, &args, ClosureKind::FnOnce).ok().map(|i| self.inst(i));
                    json!({"k":"closure","upvars":up,"inst":inst,"path":def.name()})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Adt(def, args) => {
                    let kind = format!("{:?}", def.kind());
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let d = if kind == "Enum" { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        let fs: Vec<Value> = v.fields().iter().map(|f| json!([f.name, self.ty(f.ty_with_args(&args))])).collect();
                        vs.push(json!({"name": v.name(), "discr": d, "fields": fs}));
                    }
                    json!({"k":"adt","path":def.name(),"kind":kind,"variants":vs,"args":self.args(&args)})
                }
                other => json!({"k":"other","dbg":format!("{:?}", other)}),
            },
            other => json!({"k":"other","dbg":format!("{:?}", other)}),
        };
        let mut m: Map<String, Value> = body.as_object().unwrap().clone();
        m.insert("name".into(), json!(name));
        m.insert("layout".into(), lay);
        Value::Object(m)
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        let v: Vec<Value> = a.0.iter().map(|x| match x {
            GenericArgKind::Type(t) => json!({"ty": self.ty(*t)}),
            GenericArgKind::Const(c) => json!({"const": c.eval_target_usize().ok()}),
            _ => Value::Null,
        }).collect();
        json!(v)
    }
    fn function(&mut self, i: Instance) {
        let key = i.mangled_name();
        let name = i.name();
        let kind = format!("{:?}", i.kind);
        let args = self.args(&i.args());
        let path = i.def.name();
        let mut out = json!({"name": name, "path": path, "kind": kind, "args": args});
        if let InstanceKind::Intrinsic = i.kind { out["intrinsic"] = json!(i.intrinsic_name()); }
        let skip = matches!(i.kind, InstanceKind::Virtual{..});
        if !skip && i.has_body() || i.kind == InstanceKind::Shim {
            if let Some(body) = i.body() {
                { let mut v = V { d: self }; v.visit_body(&body); }
                // resolved callees
                let locals: Vec<Value> = body.locals().iter().map(|l| { let t = self.ty(l.ty); json!(t) }).collect();
                let mut calls = Map::new();
                for (bi, b) in body.blocks.iter().enumerate() {
                    match &b.terminator.kind {
                        TerminatorKind::Call { func, .. } => {
                            if let Ok(t) = func.ty(body.locals()) {
                                let _ = self.ty(t);
                                if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
                                    if let Ok(ci) = Instance::resolve(def, &args) {
                                        let k = self.inst(ci);
                                        calls.insert(bi.to_string(), json!(k));
                                    }
                                }
                            }
                        }
                        TerminatorKind::Drop { place, .. } => {
                            if let Ok(t) = place.ty(body.locals()) {
                                let ti = self.ty(t);
                                calls.insert(bi.to_string(), json!(format!("drop:{}", ti)));
                            }
                        }
                        _ => {}
                    }
                }
                let dbg: Vec<Value> = body.var_debug_info.iter().filter_map(|v| v.local().map(|l| json!([v.name, l, v.argument_index]))).collect();
                out["body"] = json!({
                    "blocks": serde_json::to_value(&body.blocks).unwrap(),
                    "locals": locals, "arg_count": body.arg_locals().len(), "calls": calls, "dbg": dbg,
                    "span": format!("{}", body.span.get_filename()), "line": body.span.get_lines().start_line,
                });
            }
        }
        self.fns.insert(key, out);
    }
    fn run(&mut self) {
        loop {
            if let Some(t) = self.pending_ty.pop_front() { let d = self.desc(t); self.types.insert(id(&t), d); continue; }
            if let Some(i) = self.queue.pop_front() { self.function(i); continue; }
            break;
        }
    }
}

fn analyze() -> ControlFlow<(), ()> {
    let mut d = Dump::default();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() == rustc_public::ItemKind::Fn {
            if let Ok(i) = Instance::try_from(it) { let k = d.inst(i); roots.push(k); }
        }
    }
    d.run();
    let types: Map<String, Value> = d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let allocs: Map<String, Value> = d.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let fns: Map<String, Value> = d.fns.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let out = json!({"roots": roots, "types": types, "allocs": allocs, "fns": fns});
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(&path, serde_json::to_string(&out).unwrap()).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // args[0] = wrapper, args[1] = rustc
    let is_root = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "vroots");
    if !is_root {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let rustc_args: Vec<String> = args[1..].to_vec();
    let r = run!(&rustc_args, analyze);
    if r.is_err() { std::process::exit(1); }
}
