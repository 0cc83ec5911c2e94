//! Dumps the monomorphic MIR reachable from the `root_*` functions of the crate being compiled
//! as JSON (file named by MIRDUMP_OUT).  Used as a rustc wrapper for the harness crate only.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Ctx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    ty_list: Vec<Ty>,
    allocs: BTreeMap<usize, String>,
    alloc_todo: Vec<AllocId>,
    alloc_ids: HashMap<AllocId, usize>,
    insts: HashMap<String, usize>,
    inst_list: Vec<Instance>,
    stops: Vec<String>,
    next_def: Option<FnDef>,
    back_def: Option<FnDef>,
    iter_next: BTreeMap<usize, usize>,
    iter_back: BTreeMap<usize, usize>,
    iter_done: usize,
}

impl Ctx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        self.ty_json.push(String::new());
        let j = self.ty_body(t);
        self.ty_json[i] = j;
        i
    }
    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let offs = match &s.fields {
            FieldsShape::Arbitrary { offsets } => arr(offsets.iter().map(|o| o.bytes().to_string())),
            FieldsShape::Array { stride, count } => {
                format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count)
            }
            _ => "[]".into(),
        };
        let vars = match &s.variants {
            VariantsShape::Empty => "null".into(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let ts = match tag {
                    Scalar::Initialized { value, .. } | Scalar::Union { value } => {
                        value.size(&rustc_public::target::MachineInfo::target()).bytes()
                    }
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "{\"direct\":true}".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                format!(
                    "{{\"tag_size\":{},\"enc\":{},\"tag_field\":{},\"variants\":{}}}",
                    ts,
                    enc,
                    tag_field,
                    arr(variants.iter().map(|v| arr(v.offsets.iter().map(|o| o.bytes().to_string()))))
                )
            }
        };
        format!("{{\"size\":{},\"offs\":{},\"vars\":{}}}", s.size.bytes(), offs, vars)
    }
    fn ty_body(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", t));
        let lay = self.layout(t);
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, n) => {
                    let l = n.eval_target_usize().unwrap_or(u64::MAX);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(e), l)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::RawPtr(e, _) => format!("\"k\":\"rawptr\",\"elem\":{}", self.ty(e)),
                RigidTy::Ref(_, e, _) => format!("\"k\":\"ref\",\"elem\":{}", self.ty(e)),
                RigidTy::Tuple(v) => {
                    let e: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":{}", arr(e))
                }
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let d = if def.kind().is_enum() {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&args);
                                format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft))
                            })
                            .collect();
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name().to_string()), d, arr(fs)));
                    }
                    let targs: Vec<String> = args
                        .0
                        .iter()
                        .filter_map(|a| a.ty().copied())
                        .map(|x| self.ty(x).to_string())
                        .collect();
                    format!(
                        "\"k\":\"adt\",\"adt\":{},\"kind\":{},\"variants\":{},\"targs\":{}",
                        esc(&def.name().to_string()),
                        esc(&format!("{}", def.kind())),
                        arr(vs),
                        arr(targs)
                    )
                }
                RigidTy::FnDef(def, args) => {
                    let dn = def.name().to_string();
                    if dn.ends_with("iter::Iterator::next") {
                        self.next_def = Some(def);
                    }
                    if dn.ends_with("iter::DoubleEndedIterator::next_back") {
                        self.back_def = Some(def);
                    }
                    let i = match Instance::resolve(def, &args) {
                        Ok(inst) => self.inst(inst).to_string(),
                        Err(_) => "null".into(),
                    };
                    let p = match Instance::resolve_for_fn_ptr(def, &args) {
                        Ok(inst) => self.inst(inst).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"def\":{},\"inst\":{},\"ptrinst\":{}", esc(&def.name().to_string()), i, p)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(def, args) => {
                    let i = match Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        Ok(inst) => self.inst(inst).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"closure\",\"def\":{},\"once\":{}", esc(&def.name().to_string()), i)
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"nonrigid\"".into(),
        };
        format!("{{\"n\":{},{},\"lay\":{}}}", name, k, lay)
    }
    fn inst(&mut self, i: Instance) -> usize {
        let mut key = i.mangled_name().to_string();
        if let InstanceKind::Virtual { idx } = i.kind {
            key = format!("virtual{}:{}", idx, key);
        }
        if i.kind == InstanceKind::Shim {
            key = format!("shim:{}", key);
        }
        if let Some(x) = self.insts.get(&key) {
            return *x;
        }
        let n = self.inst_list.len();
        self.insts.insert(key, n);
        self.inst_list.push(i);
        n
    }
    /// resolve Iterator::next / next_back for every iterator-like type seen so far
    fn iters(&mut self) {
        while self.iter_done < self.ty_list.len() {
            let i = self.iter_done;
            let t = self.ty_list[i];
            if let TyKind::RigidTy(RigidTy::Adt(def, _)) = t.kind() {
                let n = def.name().to_string();
                let pre = ["std::iter::", "core::iter::", "std::slice::", "core::slice::", "std::vec::IntoIter", "std::vec::Drain",
                    "std::ops::Range", "std::array::IntoIter", "std::option::IntoIter", "std::boxed::Box", "std::str::", "core::str::",
                    "std::collections::"];
                if pre.iter().any(|p| n.starts_with(p)) {
                    let args = GenericArgs(vec![GenericArgKind::Type(t)]);
                    if let Some(d) = self.next_def {
                        if let Ok(x) = Instance::resolve(d, &args) {
                            let k = self.inst(x);
                            self.iter_next.insert(i, k);
                        }
                    }
                    if let Some(d) = self.back_def {
                        if let Ok(x) = Instance::resolve(d, &args) {
                            let k = self.inst(x);
                            self.iter_back.insert(i, k);
                        }
                    }
                }
            }
            self.iter_done += 1;
        }
    }
    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.alloc_ids.get(&a) {
            return *i;
        }
        let i = self.alloc_ids.len();
        self.alloc_ids.insert(a, i);
        self.alloc_todo.push(a);
        i
    }
    fn allocation(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("__"),
            }
        }
        let pv: Vec<String> = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| format!("[{},{}]", o, self.alloc_id(p.0)))
            .collect();
        format!("{{\"b\":\"{}\",\"p\":{}}}", hex, arr(pv))
    }
    fn drain_allocs(&mut self) {
        while let Some(a) = self.alloc_todo.pop() {
            let id = self.alloc_ids[&a];
            let j = match GlobalAlloc::from(a) {
                GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                GlobalAlloc::VTable(t, _) => format!("{{\"vtable\":{}}}", self.ty(t)),
                GlobalAlloc::Static(s) => match s.eval_initializer() {
                    Ok(al) => {
                        let x = self.allocation(&al);
                        let t = self.ty(s.ty());
                        format!("{{\"mem\":{},\"ty\":{}}}", x, t)
                    }
                    Err(_) => "{\"static\":true}".into(),
                },
                GlobalAlloc::Memory(al) => {
                    let x = self.allocation(&al);
                    format!("{{\"mem\":{}}}", x)
                }
                GlobalAlloc::TypeId { .. } => "{\"typeid\":true}".into(),
            };
            self.allocs.insert(id, j);
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let ps: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"D\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"F\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"I\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"C\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"S\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"V\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"O\",{}]", self.ty(*t)),
            })
            .collect();
        format!("[{},{}]", p.local, arr(ps))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let k = match c.kind() {
            ConstantKind::Allocated(a) => self.allocation(a),
            ConstantKind::ZeroSized => "\"zst\"".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.allocation(a),
                TyConstKind::ZSTValue(_) => "\"zst\"".into(),
                _ => "\"tyconst\"".into(),
            },
            _ => "\"uneval\"".into(),
        };
        format!("[\"K\",{},{}]", t, k)
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"P\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"M\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"R\",\"{:?}\"]", r),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        let _ = locals;
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"P\",{}]]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"P\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(u64::MAX))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o), t)
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let tb = b.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{},{}]", op, self.operand(a), self.operand(b), t, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let tb = b.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cbin\",\"{:?}\",{},{},{},{}]", op, self.operand(a), self.operand(b), t, tb)
            }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), ft, self.ty(*t))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let (kn, v, t) = match k {
                    AggregateKind::Array(_) => ("array", 0, r.ty(locals).ok()),
                    AggregateKind::Tuple => ("tuple", 0, r.ty(locals).ok()),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        (if f.is_some() { "union" } else { "adt" }, v.to_index(), r.ty(locals).ok())
                    }
                    AggregateKind::Closure(..) => ("closure", 0, r.ty(locals).ok()),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, r.ty(locals).ok()),
                    _ => ("other", 0, None),
                };
                let t = t.map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"agg\",\"{}\",{},{},{}]", kn, v, arr(os), t)
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let ls: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("[\"=\",{},{}]", self.place(p), self.rvalue(r, &locals)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                        st.push(format!("[\"setd\",{},{},{}]", self.place(place), variant_index.to_index(), t))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st.push(format!(
                        "[\"cno\",{},{},{}]",
                        self.operand(&c.src),
                        self.operand(&c.dst),
                        self.operand(&c.count)
                    )),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    _ => {}
                }
            }
            let line = {
                let sp = bb.terminator.source_info.span;
                esc(&format!("{}:{}", sp.get_filename(), sp.get_lines().start_line))
            };
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br: Vec<String> = targets.branches().map(|(v, b)| format!("[{},{}]", v, b)).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), arr(br), targets.otherwise(), t)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let fty = func.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|o| o.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string())
                        .collect();
                    let dt = destination.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{},{}]",
                        f,
                        fty,
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        arr(at),
                        dt,
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow neg".into(),
                        AssertMessage::DivisionByZero(_) => "div by zero".into(),
                        AssertMessage::RemainderByZero(_) => "rem by zero".into(),
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned".into(),
                        AssertMessage::NullPointerDereference => "nullptr".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, target, esc(&m), line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(st), t));
        }
        let spread = b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into());
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":{}}}",
            arr(ls),
            b.arg_locals().len(),
            spread,
            arr(blocks)
        )
    }
}

fn dump() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let stops: Vec<String> = std::env::var("MIRDUMP_STOPS")
        .ok()
        .map(|p| {
            std::fs::read_to_string(p)
                .unwrap()
                .lines()
                .map(|l| l.trim().to_string())
                .filter(|l| !l.is_empty() && !l.starts_with('#'))
                .collect()
        })
        .unwrap_or_default();
    let mut cx = Ctx {
        tys: HashMap::new(),
        ty_json: vec![],
        ty_list: vec![],
        allocs: BTreeMap::new(),
        alloc_todo: vec![],
        alloc_ids: HashMap::new(),
        insts: HashMap::new(),
        inst_list: vec![],
        stops,
        next_def: None,
        back_def: None,
        iter_next: BTreeMap::new(),
        iter_back: BTreeMap::new(),
        iter_done: 0,
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let it: CrateItem = it;
        let name = it.name().to_string();
        let short = name.rsplit("::").next().unwrap().to_string();
        if short.starts_with("root_") {
            if let Ok(i) = Instance::try_from(it) {
                let id = cx.inst(i);
                roots.push(format!("{}:{}", esc(&short), id));
            }
        }
    }
    let mut fns = vec![];
    let mut n = 0;
    while n < cx.inst_list.len() {
        let i = cx.inst_list[n];
        let name = i.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic => "llvm".into(),
            InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
            InstanceKind::Shim => "shim".into(),
        };
        let stop = cx.stops.iter().any(|s| {
            if let Some(x) = s.strip_prefix('^') {
                name.starts_with(x)
            } else {
                name.contains(s.as_str())
            }
        });
        let iname = if i.kind == InstanceKind::Intrinsic {
            i.intrinsic_name().map(|s| s.to_string()).unwrap_or_default()
        } else {
            String::new()
        };
        let targs: Vec<String> =
            i.args().0.iter().filter_map(|a| a.ty().copied()).map(|x| cx.ty(x).to_string()).collect();
        let body = if stop || i.kind == InstanceKind::Intrinsic || matches!(i.kind, InstanceKind::Virtual { .. }) {
            "null".to_string()
        } else {
            match i.body() {
                Some(b) => cx.body(&b),
                None => "null".into(),
            }
        };
        fns.push(format!(
            "{{\"n\":{},\"kind\":\"{}\",\"intr\":{},\"targs\":{},\"stop\":{},\"body\":{}}}",
            esc(&name),
            kind,
            esc(&iname),
            arr(targs),
            stop,
            body
        ));
        cx.drain_allocs();
        n += 1;
        if n == cx.inst_list.len() {
            cx.iters();
        }
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"roots\":{{{}}},\n\"fns\":[\n{}\n],\n\"types\":[\n{}\n],\n\"allocs\":{{{}}},\n\"iter_next\":{{{}}},\"iter_back\":{{{}}}}}",
        roots.join(","),
        fns.join(",\n"),
        cx.ty_json.join(",\n"),
        cx.allocs.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",\n"),
        cx.iter_next.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
        cx.iter_back.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    std::fs::write(&out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let args: Vec<String> = std::env::args().skip(1).collect();
    let is_harness = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "vharness");
    if !is_harness {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run!(&args, dump);
    if r.is_err() {
        eprintln!("mirdump failed: {:?}", r.is_err());
        std::process::exit(101);
    }
}
