//! mirdump: dumps the monomorphised MIR of every function reachable from the
//! items of the crate being compiled, as JSON, for the contract verifier.
//! Nothing is transformed: bodies are the compiler's own, serialised by rustc_public.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Dump {
    types: BTreeMap<usize, Value>,
    type_q: VecDeque<Ty>,
    seen_ty: HashSet<Ty>,
    insts: HashMap<Instance, usize>,
    inst_q: VecDeque<Instance>,
    inst_out: BTreeMap<usize, Value>,
    allocs: BTreeMap<usize, Value>,
    alloc_q: VecDeque<AllocId>,
    seen_alloc: HashSet<AllocId>,
    extra: Vec<String>,
    local: Vec<String>,
}

fn idx<T: serde::Serialize>(t: &T) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if self.seen_ty.insert(t) {
            self.type_q.push_back(t);
        }
        idx(&t)
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        if self.seen_alloc.insert(a) {
            self.alloc_q.push_back(a);
        }
        idx(&a)
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.insts.get(&i) {
            return *n;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.inst_q.push_back(i);
        n
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        Value::Array(
            a.0.iter()
                .map(|g| match g {
                    GenericArgKind::Type(t) => json!({"ty": self.ty(*t)}),
                    GenericArgKind::Const(c) => json!({"const": c.eval_target_usize().ok()}),
                    GenericArgKind::Lifetime(_) => json!("lt"),
                })
                .collect(),
        )
    }
    fn fields(&mut self, v: &VariantDef, args: &GenericArgs) -> Value {
        Value::Array(
            v.fields()
                .iter()
                .map(|f| {
                    let t = f.ty_with_args(args);
                    json!([f.name.to_string(), self.ty(t)])
                })
                .collect(),
        )
    }
    fn do_ty(&mut self, t: Ty) {
        let id = idx(&t);
        let name = format!("{}", t);
        let layout = t.layout().ok().map(|l| serde_json::to_string(&l.shape()).unwrap());
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bytes":i.num_bytes(),"size":matches!(i,IntTy::Isize)}),
                RigidTy::Uint(i) => json!({"k":"uint","bytes":i.num_bytes(),"size":matches!(i,UintTy::Usize)}),
                RigidTy::Float(_) => json!({"k":"float"}),
                RigidTy::Adt(def, args) => {
                    let kind = format!("{:?}", def.kind());
                    let a = self.args(&args);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let d = if def.kind() == AdtKind::Enum {
                            Some(def.discriminant_for_variant(v.idx()).val.to_string())
                        } else { None };
                        let f = self.fields(&v, &args);
                        vs.push(json!({"name": v.name().to_string(), "discr": d, "fields": f}));
                    }
                    json!({"k":"adt","kind":kind,"def":def.name().to_string(),"crate":def.krate().name.to_string(),"args":a,"variants":vs,"is_box":def.is_box()})
                }
                RigidTy::Foreign(_) => json!({"k":"foreign"}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(e, n) => json!({"k":"array","elem":self.ty(e),"len":n.eval_target_usize().ok()}),
                RigidTy::Pat(e, _) => json!({"k":"pat","elem":self.ty(e)}),
                RigidTy::Slice(e) => json!({"k":"slice","elem":self.ty(e)}),
                RigidTy::RawPtr(e, m) => json!({"k":"ptr","elem":self.ty(e),"mut":m==Mutability::Mut}),
                RigidTy::Ref(_, e, m) => json!({"k":"ref","elem":self.ty(e),"mut":m==Mutability::Mut}),
                RigidTy::FnDef(def, args) => {
                    let a = self.args(&args);
                    let inst = Instance::resolve(def, &args).ok().map(|i| self.inst(i));
                    json!({"k":"fndef","def":def.name().to_string(),"args":a,"inst":inst})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(def, args) => {
                    let a = self.args(&args);
                    let mut m = Map::new();
                    for (n, ck) in [("Fn", ClosureKind::Fn), ("FnMut", ClosureKind::FnMut), ("FnOnce", ClosureKind::FnOnce)] {
                        // resolve_closure for the closure's own kind gives the body itself
                        if let Ok(i) = Instance::resolve_closure(def, &args, ck) {
                            if i.kind == InstanceKind::Item {
                                let id = self.inst(i);
                                m.insert(n.to_string(), json!(id));
                            }
                        }
                    }
                    // upvars: last arg is tuple of captured types
                    json!({"k":"closure","def":def.name().to_string(),"args":a,"insts":m})
                }
                RigidTy::Coroutine(def, args) => { let a=self.args(&args); json!({"k":"coroutine","def":def.name().to_string(),"args":a}) }
                RigidTy::CoroutineClosure(..) => json!({"k":"coroutineclosure"}),
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Tuple(ts) => {
                    let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","elems":v})
                }
                RigidTy::CoroutineWitness(..) => json!({"k":"cw"}),
            },
            o => json!({"k":"other","dbg":format!("{:?}",o)}),
        };
        let mut k = k;
        k["name"] = json!(name);
        k["layout"] = json!(layout);
        self.types.insert(id, k);
    }
    fn want_body(&self, i: &Instance) -> bool {
        let kr = i.def.krate().name.to_string();
        if self.local.iter().any(|l| *l == kr) {
            return true;
        }
        let n = i.name().to_string();
        let dn = i.def.name().to_string();
        if n.contains("fmt::") && !n.contains("SilentPaymentCode") { return false; }
        self.extra.iter().any(|e| n.starts_with(e.as_str()) || (e.starts_with('=') && dn.starts_with(&e[1..])) || (e.starts_with('*') && n.contains(&e[1..])))
    }
    fn do_inst(&mut self, i: Instance) {
        let id = self.insts[&i];
        let a = i.args();
        let args = self.args(&a);
        let mut v = json!({
            "name": i.name().to_string(),
            "def": i.def.name().to_string(),
            "crate": i.def.krate().name.to_string(),
            "args": args,
            "kind": format!("{:?}", i.kind),
            "intrinsic": i.intrinsic_name().map(|s| s.to_string()),
            "ty": self.ty(i.ty()),
        });
                if let Ok(abi) = i.fn_abi() { v["ret"] = json!(self.ty(abi.ret.ty)); }
        if i.kind != InstanceKind::Item && i.kind != InstanceKind::Shim { self.inst_out.insert(id, v); return; }
        if i.kind == InstanceKind::Item && self.want_body(&i) && i.has_body() {
            if let Some(b) = i.body() {
                let mut c = Coll { d: self, locals: b.locals().to_vec(), calls: vec![] };
                c.visit_body(&b);
                let calls = c.calls;
                v["body"] = json!(serde_json::to_string(&b).unwrap());
                v["span"] = json!(b.span.get_filename().to_string());
                let mut lines = vec![];
                for bb in &b.blocks { lines.push(bb.terminator.source_info.span.get_lines().start_line); }
                v["lines"] = json!(lines);
                let _ = calls;
            }
        }
        self.inst_out.insert(id, v);
    }
    fn do_alloc(&mut self, a: AllocId) {
        let id = idx(&a);
        let v = match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(al) => {
                for (_, p) in &al.provenance.ptrs { self.alloc(p.0); }
                json!({"mem": serde_json::to_string(&al).unwrap()})
            }
            GlobalAlloc::Static(s) => match s.eval_initializer() {
                Ok(al) => {
                    for (_, p) in &al.provenance.ptrs { self.alloc(p.0); }
                    json!({"mem": serde_json::to_string(&al).unwrap(), "static": s.name().to_string()})
                }
                Err(_) => json!({"static": s.name().to_string()}),
            },
            GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
            GlobalAlloc::VTable(t, _) => json!({"vtable": self.ty(t)}),
            o => json!({"other": format!("{:?}", o)}),
        };
        self.allocs.insert(id, v);
    }
    fn drain(&mut self) {
        loop {
            if let Some(i) = self.inst_q.pop_front() { self.do_inst(i); continue; }
            if let Some(t) = self.type_q.pop_front() { self.do_ty(t); continue; }
            if let Some(a) = self.alloc_q.pop_front() { self.do_alloc(a); continue; }
            break;
        }
    }
}

struct Coll<'a> {
    d: &'a mut Dump,
    locals: Vec<LocalDecl>,
    calls: Vec<usize>,
}
impl<'a> MirVisitor for Coll<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.d.ty(*ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        self.d.ty(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() {
            for (_, p) in &a.provenance.ptrs { self.d.alloc(p.0); }
        }
        self.super_mir_const(c, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Ok(t) = r.ty(&self.locals) { self.d.ty(t); }
        self.super_rvalue(r, l);
    }
}

fn analyze() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut d = Dump::default();
    d.local = std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    d.extra = std::env::var("MIRDUMP_EXTRA").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let me = rustc_public::local_crate();
    d.local.push(me.name.to_string());
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        if let Ok(i) = Instance::try_from(it) {
            let id = d.inst(i);
            roots.push(json!([it.name().to_string(), id]));
        }
    }
    d.drain();
    let insts: Map<String, Value> = d.inst_out.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let types: Map<String, Value> = d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let allocs: Map<String, Value> = d.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let v = json!({"roots": roots, "instances": insts, "types": types, "allocs": allocs});
    std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let krate = std::env::var("MIRDUMP_ROOT").unwrap_or_else(|_| "roots".into());
    let is_root = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    if !is_root {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    match run!(&args, analyze) {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(_) => std::process::exit(1),
    }
}
