#![feature(rustc_private)]
//! rustc wrapper: compiles every crate as rustc would; for the crate named by MIRDUMP_CRATE it
//! additionally writes, to MIRDUMP_OUT, the monomorphic MIR of every non-generic function of that
//! crate whose path matches MIRDUMP_ROOTS (a prefix) and of everything reachable from them, as JSON.
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;

struct Dump {
    types: Map<String, Value>,
    fns: Map<String, Value>,
    queue: VecDeque<(String, Instance)>,
    seen: HashMap<String, ()>,
}

fn idx<T: IndexedVal>(t: T) -> usize { t.to_index() }

impl Dump {
    fn ty(&mut self, t: Ty) -> Value {
        let id = idx(t);
        let key = id.to_string();
        if !self.types.contains_key(&key) {
            self.types.insert(key.clone(), Value::Null);
            let v = self.ty_desc(t);
            self.types.insert(key, v);
        }
        json!(id)
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t)),
                GenericArgKind::Const(c) => v.push(json!({"const": format!("{}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or_else(|_| format!("{:?}", c)))})),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        json!(v)
    }
    fn ty_desc(&mut self, t: Ty) -> Value {
        let s = format!("{}", t);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool","s":s}),
                RigidTy::Char => json!({"k":"char","s":s}),
                RigidTy::Int(i) => json!({"k":"int","s":s,"signed":true,"bits":i.num_bytes()*8}),
                RigidTy::Uint(i) => json!({"k":"int","s":s,"signed":false,"bits":i.num_bytes()*8}),
                RigidTy::Float(_) => json!({"k":"float","s":s}),
                RigidTy::Str => json!({"k":"str","s":s}),
                RigidTy::Never => json!({"k":"never","s":s}),
                RigidTy::Array(e, n) => { let e = self.ty(e); json!({"k":"array","s":s,"elem":e,"len":n.eval_target_usize().ok()}) }
                RigidTy::Slice(e) => { let e = self.ty(e); json!({"k":"slice","s":s,"elem":e}) }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); json!({"k":"ptr","s":s,"ty":e,"mut": m==Mutability::Mut}) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); json!({"k":"ref","s":s,"ty":e,"mut": m==Mutability::Mut}) }
                RigidTy::Tuple(ts) => { let v: Vec<_> = ts.iter().map(|t| self.ty(*t)).collect(); json!({"k":"tuple","s":s,"elems":v}) }
                RigidTy::FnDef(d, a) => {
                    let mut v = self.fnref(d, &a);
                    if let Ok(i) = Instance::resolve(d, &a) {
                        if let Ok(abi) = i.fn_abi() {
                            v["rty"] = self.ty(abi.ret.ty);
                            v["argtys"] = json!(abi.args.iter().map(|x| self.ty(x.ty)).collect::<Vec<_>>());
                        }
                    }
                    json!({"k":"fndef","s":s,"fn":v})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr","s":s}),
                RigidTy::Closure(d, a) => {
                    let mut bodykey = Value::Null;
                    // the closure's own body: try kinds in order Fn, FnMut, FnOnce and take the non-shim
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(Ok(i)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve_closure(d, &a, k))) {
                            if i.kind == InstanceKind::Item { bodykey = json!(self.enqueue(i)); break; }
                        }
                    }
                    let name = d.name().to_string();
                    let argv = self.args(&a);
                    // last generic argument of a closure is the tuple of upvar types
                    let up = a.0.iter().rev().find_map(|g| g.ty().copied());
                    let up = up.map(|t| self.ty(t));
                    json!({"k":"closure","s":s,"name":name,"args":argv,"body":bodykey,"upvars":up})
                }
                RigidTy::Adt(d, a) => {
                    let argv = self.args(&a);
                    let mut vs = vec![];
                    let isenum = d.kind() == AdtKind::Enum;
                    if d.kind() != AdtKind::Union {
                        for (i, v) in d.variants_iter().enumerate() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                fs.push(json!({"name": f.name.to_string(), "ty": self.ty(ft)}));
                            }
                            let disc = if isenum { d.discriminant_for_variant(VariantIdx::to_val(i)).val.to_string() } else { "0".into() };
                            vs.push(json!({"name": v.name().to_string(), "discr": disc, "fields": fs}));
                        }
                    }
                    json!({"k":"adt","s":s,"name":d.name().to_string(),"args":argv,"enum":isenum,"variants":vs})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn","s":s}),
                _ => json!({"k":"other","s":s}),
            },
            _ => json!({"k":"other","s":s}),
        }
    }
    fn enqueue(&mut self, i: Instance) -> String {
        let key = i.mangled_name().to_string();
        if self.seen.insert(key.clone(), ()).is_none() { self.queue.push_back((key.clone(), i)); }
        key
    }
    fn fnref(&mut self, d: FnDef, a: &GenericArgs) -> Value {
        let decl = d.name().to_string();
        let declargs = self.args(a);
        match Instance::resolve(d, a) {
            Ok(i) => {
                let name = i.name().to_string();
                let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual{..} => "virtual", InstanceKind::Shim => "shim" };
                let def = i.def.name().to_string();
                let args = self.args(&i.args());
                let mut key = Value::Null;
                if (i.kind == InstanceKind::Item) && want(&def, &name) { key = json!(self.enqueue(i)); }
                json!({"decl":decl,"declargs":declargs,"name":name,"def":def,"args":args,"kind":kind,"key":key})
            }
            Err(_) => json!({"decl":decl,"declargs":declargs,"name":null,"def":decl,"args":declargs,"kind":"unresolved","key":null}),
        }
    }
    fn place(&mut self, p: &Place) -> Value {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => json!(["d"]),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); json!(["f", *i, t]) }
                ProjectionElem::Index(l) => json!(["i", *l]),
                ProjectionElem::ConstantIndex{offset, min_length, from_end} => json!(["c", offset, min_length, from_end]),
                ProjectionElem::Subslice{from, to, from_end} => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["v", idx(*v)]),
                ProjectionElem::OpaqueCast(_) => json!(["o"]),
                #[allow(unreachable_patterns)]
                _ => json!(["?"]),
            });
        }
        json!([p.local, pr])
    }
    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"copy": self.place(p)}),
            Operand::Move(p) => json!({"move": self.place(p)}),
            Operand::Constant(c) => json!({"const": self.constant(&c.const_)}),
            Operand::RuntimeChecks(r) => json!({"rtcheck": format!("{:?}", r)}),
        }
    }
    fn constant(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        let tid = self.ty(t);
        match c.kind() {
            ConstantKind::Allocated(a) => { let v = self.alloc_val(a, 0, t, 0); json!({"ty":tid,"val":v}) }
            ConstantKind::ZeroSized => json!({"ty":tid,"val":{"zst":true}}),
            ConstantKind::Ty(tc) => json!({"ty":tid,"val":{"u": tc.eval_target_usize().map(|x| x.to_string()).unwrap_or_default()}}),
            k => json!({"ty":tid,"val":{"unk":format!("{:?}", k)}}),
        }
    }
    fn prov_at(&self, a: &Allocation, off: usize) -> Option<Prov> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.clone())
    }
    fn alloc_val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Value {
        if depth > 12 { return json!({"unk":"depth"}); }
        let rd = |o: usize, n: usize| -> Option<u128> {
            let mut r: u128 = 0;
            if o + n > a.bytes.len() { return None; }
            for i in (0..n).rev() { r = (r << 8) | (a.bytes[o + i]? as u128); }
            Some(r)
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"u": rd(off,1).map(|x| x.to_string())}),
                RigidTy::Char => json!({"u": rd(off,4).map(|x| x.to_string())}),
                RigidTy::Int(i) => {
                    let n = i.num_bytes();
                    match rd(off, n) { Some(v) => { let sh = 128 - 8*n as u32; let s = ((v << sh) as i128) >> sh; json!({"u": s.to_string()}) } None => json!({"unk":"uninit"}) }
                }
                RigidTy::Uint(i) => json!({"u": rd(off,i.num_bytes()).map(|x| x.to_string())}),
                RigidTy::Float(f) => { let n = match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 }; json!({"fbits": rd(off,n).map(|x| x.to_string())}) }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let Some(p) = self.prov_at(a, off) else { 
                        return json!({"dangling": rd(off,8).map(|x| x.to_string()), "len": if matches!(e.kind(), TyKind::RigidTy(RigidTy::Slice(_))|TyKind::RigidTy(RigidTy::Str)) { rd(off+8,8).map(|x| x.to_string()) } else { None }});
                    };
                    let inner_off = rd(off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Memory(m) => match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = rd(off+8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = m.bytes[inner_off..inner_off+n].iter().map(|x| x.unwrap_or(0)).collect();
                                json!({"ref": {"str": String::from_utf8_lossy(&b)}})
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = rd(off+8, 8).unwrap_or(0) as usize;
                                let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let mut v = vec![];
                                if n <= 4096 { for i in 0..n { v.push(self.alloc_val(&m, inner_off + i*sz, el, depth+1)); } }
                                json!({"ref": {"arr": v}})
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => json!({"unk":"dyn"}),
                            _ => { let v = self.alloc_val(&m, inner_off, e, depth+1); json!({"ref": v}) }
                        },
                        GlobalAlloc::Function(i) => json!({"fnptr": i.name().to_string()}),
                        GlobalAlloc::Static(s) => {
                            json!({"static": s.name().to_string()})
                        }
                        _ => json!({"unk":"alloc"}),
                    }
                }
                RigidTy::Array(el, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let mut v = vec![];
                    if n <= 4096 { for i in 0..n { v.push(self.alloc_val(a, off + i*sz, el, depth+1)); } }
                    json!({"arr": v})
                }
                RigidTy::Tuple(ts) => {
                    let Ok(l) = t.layout() else { return json!({"unk":"layout"}) };
                    let offs = match &l.shape().fields { rustc_public::abi::FieldsShape::Arbitrary{offsets} => offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>(), _ => vec![0; ts.len()] };
                    let v: Vec<_> = ts.iter().enumerate().map(|(i, t)| self.alloc_val(a, off + offs[i], *t, depth+1)).collect();
                    json!({"tuple": v})
                }
                RigidTy::Adt(d, args) => {
                    let Ok(l) = t.layout() else { return json!({"unk":"layout"}) };
                    let sh = l.shape();
                    use rustc_public::abi::{VariantsShape, FieldsShape, TagEncoding};
                    if d.kind() == AdtKind::Struct {
                        let offs = match &sh.fields { FieldsShape::Arbitrary{offsets} => offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>(), _ => vec![] };
                        let var = d.variants()[0];
                        let mut v = vec![];
                        for (i, f) in var.fields().iter().enumerate() { v.push(self.alloc_val(a, off + offs.get(i).copied().unwrap_or(0), f.ty_with_args(&args), depth+1)); }
                        json!({"adt": 0, "fields": v})
                    } else if d.kind() == AdtKind::Enum {
                        match &sh.variants {
                            VariantsShape::Single{index} => {
                                let vi = idx(*index);
                                let offs = match &sh.fields { FieldsShape::Arbitrary{offsets} => offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>(), _ => vec![] };
                                let var = d.variants()[vi];
                                let mut v = vec![];
                                for (i, f) in var.fields().iter().enumerate() { v.push(self.alloc_val(a, off + offs.get(i).copied().unwrap_or(0), f.ty_with_args(&args), depth+1)); }
                                json!({"adt": vi, "fields": v})
                            }
                            VariantsShape::Multiple{tag, tag_encoding, tag_field, variants} => {
                                let toff = match &sh.fields { FieldsShape::Arbitrary{offsets} => offsets[*tag_field].bytes(), _ => 0 };
                                let tsz = match tag { rustc_public::abi::Scalar::Initialized{value,..} | rustc_public::abi::Scalar::Union{value} => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                                let has_prov = self.prov_at(a, off + toff).is_some();
                                let tv = rd(off + toff, tsz);
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => { let Some(tv) = tv else { return json!({"unk":"tag"}) };
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz*8)) - 1 };
                                        (0..d.variants().len()).find(|i| (d.discriminant_for_variant(VariantIdx::to_val(*i)).val & mask) == tv) }
                                    TagEncoding::Niche{untagged_variant, niche_variants, niche_start} => {
                                        if has_prov { Some(idx(*untagged_variant)) } else {
                                            let Some(tv) = tv else { return json!({"unk":"tag"}) };
                                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz*8)) - 1 };
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            let s = idx(*niche_variants.start()); let e = idx(*niche_variants.end());
                                            if rel <= (e - s) as u128 { Some(s + rel as usize) } else { Some(idx(*untagged_variant)) }
                                        }
                                    }
                                };
                                let Some(vi) = vi else { return json!({"unk":"variant"}) };
                                let offs: Vec<usize> = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                                let var = d.variants()[vi];
                                let mut v = vec![];
                                for (i, f) in var.fields().iter().enumerate() { v.push(self.alloc_val(a, off + offs.get(i).copied().unwrap_or(0), f.ty_with_args(&args), depth+1)); }
                                json!({"adt": vi, "fields": v})
                            }
                            _ => json!({"unk":"emptyenum"}),
                        }
                    } else { json!({"unk":"union"}) }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => json!({"zst":true}),
                RigidTy::FnPtr(_) => {
                    if let Some(p) = self.prov_at(a, off) { if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) { return json!({"fnptr": i.name().to_string()}); } }
                    json!({"unk":"fnptr"})
                }
                _ => json!({"unk": format!("{}", t)}),
            },
            _ => json!({"unk": format!("{}", t)}),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(k, p) => json!({"k":"addr","mut":format!("{:?}",k),"p":self.place(p)}),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<_> = ops.iter().map(|o| self.operand(o)).collect();
                match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); json!({"k":"agg","a":"array","ty":t,"ops":o}) }
                    AggregateKind::Tuple => json!({"k":"agg","a":"tuple","ops":o}),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = self.ty(d.ty_with_args(a)); json!({"k":"agg","a":"adt","ty":t,"v":idx(*v),"ops":o,"active":f.map(|x| x)}) }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); json!({"k":"agg","a":"closure","ty":t,"ops":o}) }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); json!({"k":"agg","a":"rawptr","ty":t,"ops":o}) }
                    _ => json!({"k":"agg","a":"other","ops":o}),
                }
            }
            Rvalue::BinaryOp(op, a, b) => json!({"k":"bin","op":format!("{:?}",op),"a":self.operand(a),"b":self.operand(b)}),
            Rvalue::CheckedBinaryOp(op, a, b) => json!({"k":"cbin","op":format!("{:?}",op),"a":self.operand(a),"b":self.operand(b)}),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); json!({"k":"cast","c":format!("{:?}",k),"o":self.operand(o),"ty":t}) }
            Rvalue::CopyForDeref(p) => json!({"k":"use","o":{"copy":self.place(p)}}),
            Rvalue::Discriminant(p) => json!({"k":"disc","p":self.place(p)}),
            Rvalue::Len(p) => json!({"k":"len","p":self.place(p)}),
            Rvalue::Ref(_, bk, p) => json!({"k":"ref","mut":matches!(bk, BorrowKind::Mut{..}),"p":self.place(p)}),
            Rvalue::Reborrow(_, m, p) => json!({"k":"ref","mut":*m==Mutability::Mut,"p":self.place(p)}),
            Rvalue::Repeat(o, n) => json!({"k":"repeat","o":self.operand(o),"n":n.eval_target_usize().ok()}),
            Rvalue::UnaryOp(op, o) => json!({"k":"un","op":format!("{:?}",op),"o":self.operand(o)}),
            Rvalue::Use(o, _) => json!({"k":"use","o":self.operand(o)}),
            other => json!({"k":"other","s":format!("{:?}", other)}),
        }
    }
    fn body(&mut self, i: Instance) -> Value {
        let b = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())) { Ok(Some(b)) => b, _ => return Value::Null };
        let locals: Vec<_> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut dbg = vec![];
        for d in &b.var_debug_info { if let VarDebugInfoContents::Place(p) = &d.value { dbg.push(json!([d.name.to_string(), self.place(p)])); } }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(json!(["=", self.place(p), self.rvalue(r)])),
                    StatementKind::SetDiscriminant{place, variant_index} => st.push(json!(["setdisc", self.place(place), idx(*variant_index)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(json!(["assume", self.operand(o)])),
                    StatementKind::Intrinsic(_) => st.push(json!(["intrinsic"])),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto{target} => json!({"k":"goto","t":target}),
                TerminatorKind::SwitchInt{discr, targets} => {
                    let br: Vec<_> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    let dt = discr.ty(b.locals()).ok().map(|t| self.ty(t));
                    json!({"k":"switch","o":self.operand(discr),"ty":dt,"br":br,"else":targets.otherwise()})
                }
                TerminatorKind::Return => json!({"k":"return"}),
                TerminatorKind::Unreachable => json!({"k":"unreachable"}),
                TerminatorKind::Resume => json!({"k":"resume"}),
                TerminatorKind::Abort => json!({"k":"abort"}),
                TerminatorKind::Drop{place, target, ..} => json!({"k":"drop","p":self.place(place),"t":target}),
                TerminatorKind::Call{func, args, destination, target, ..} => {
                    let a: Vec<_> = args.iter().map(|o| self.operand(o)).collect();
                    let f = match func.ty(b.locals()).ok().map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, ga))) => self.fnref(d, &ga),
                        _ => json!({"ptr": self.operand(func)}),
                    };
                    let at: Vec<_> = args.iter().map(|o| o.ty(b.locals()).ok().map(|t| self.ty(t))).collect();
                    let rt = destination.ty(b.locals()).ok().map(|t| self.ty(t));
                    json!({"k":"call","f":f,"args":a,"argtys":at,"rty":rt,"dest":self.place(destination),"t":target})
                }
                TerminatorKind::Assert{cond, expected, msg, target, ..} => json!({"k":"assert","o":self.operand(cond),"exp":expected,"msg":msg.description().unwrap_or("assert"),"t":target}),
                TerminatorKind::InlineAsm{..} => json!({"k":"asm"}),
            };
            blocks.push(json!({"s":st,"t":t,"line":line}));
        }
        let span = b.span;
        json!({"locals":locals,"argc":b.arg_locals().len(),"spread":b.spread_arg(),"debug":dbg,"blocks":blocks,
               "file":span.get_filename().to_string(),"line":span.get_lines().start_line})
    }
}

/// Which resolved callees to descend into (everything else stays an opaque name).
fn want(def: &str, _name: &str) -> bool {
    let deny = ["std::fmt", "core::fmt", "alloc::fmt", "std::io", "std::alloc", "alloc::alloc", "alloc::raw_vec", "core::str::", "std::str::",
        "core::num", "std::num", "core::slice::sort", "core::unicode", "std::sys", "std::panic", "core::panic", "std::thread", "std::sync", "core::char",
        "log::", "yaserde::log::", "xml::", "yaserde::xml::", "std::clone", "core::clone", "alloc::borrow", "std::borrow", "core::iter", "std::iter", "core::cmp", "std::cmp", "std::slice", "core::array", "std::io", "alloc::io", "alloc::collections", "std::collections", "core::ptr", "core::intrinsics", "std::hash", "core::hash", "alloc::string", "std::string",
        "core::panicking", "std::rt", "std::backtrace", "xml::reader::parser", "xml::reader::lexer", "xml::reader::error", "xml::writer::emitter", "xml::escape", "alloc::vec::", "std::vec::",
        "alloc::slice", "alloc::str", "alloc::boxed", "core::alloc", "core::slice", "std::ptr", "std::char", "core::any", "std::any", "core::time", "core::array", "std::array"];
    let s = def.trim_start_matches('<');
    !deny.iter().any(|d| s.starts_with(d)) && !std::env::var("MIRDUMP_DENY").unwrap_or_default().split(',').any(|d| !d.is_empty() && s.starts_with(d))
}

fn run_dump() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let pre: Vec<String> = std::env::var("MIRDUMP_ROOTS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut d = Dump { types: Map::new(), fns: Map::new(), queue: VecDeque::new(), seen: HashMap::new() };
    let mut roots = Map::new();
    for item in rustc_public::all_local_items() {
        let name = item.name().to_string();
        if !pre.iter().any(|p| name.contains(p.as_str())) { continue; }
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) { continue; }
        if let Ok(i) = Instance::try_from(item) {
            let k = d.enqueue(i);
            roots.insert(name, json!(k));
        }
    }
    while let Some((key, i)) = d.queue.pop_front() {
        let mut v = d.body(i);
        if let Value::Object(ref mut m) = v {
            let name = i.name().to_string();
            m.insert("name".into(), json!(name));
            m.insert("def".into(), json!(i.def.name().to_string()));
            let a = d.args(&i.args());
            m.insert("args".into(), a);
        }
        d.fns.insert(key, v);
    }
    let v = json!({"types": d.types, "fns": d.fns, "roots": roots});
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // used as RUSTC_WRAPPER: argv[1] is the rustc to run
    let args: Vec<String> = std::env::args().skip(1).collect();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let second = std::env::var("MIRDUMP_CRATE_2").unwrap_or_default();
    if name == second && !name.is_empty() {
        // compiled as ever; then once more, in a process of its own whose failure does no harm, for its MIR
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        let out = std::env::var("MIRDUMP_OUT_2").unwrap_or_default();
        if st.success() {
            let mut a2 = vec![];
            let mut it = args.iter();
            while let Some(a) = it.next() {
                if a.starts_with("--emit=") { a2.push("--emit=metadata".to_string()); }
                else if a == "--out-dir" { a2.push(a.clone()); it.next(); a2.push(format!("{}.d", out)); }
                else { a2.push(a.clone()); }
            }
            let _ = std::fs::create_dir_all(format!("{}.d", out));
            let get = |k: &str| std::env::var(k).unwrap_or_default();
            let _ = std::process::Command::new(std::env::current_exe().unwrap()).args(&a2)
                .env("MIRDUMP_CRATE", &second).env("MIRDUMP_CRATE_2", "").env("MIRDUMP_OUT", &out)
                .env("MIRDUMP_ROOTS", get("MIRDUMP_ROOTS_2")).env("MIRDUMP_DENY", get("MIRDUMP_DENY_2"))
                .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        }
        std::process::exit(st.code().unwrap_or(1));
    }
    if name == want && !name.is_empty() && name != "___" {
        let args2 = args.clone();
        let r = run!(&args2, run_dump);
        if r.is_err() { std::process::exit(1); }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
