// MIR exporter: a rustc driver that type-checks a crate as usual and then writes the monomorphised
// MIR of every function of the crate (and of an allow-listed set of library combinators it reaches)
// as JSON. It decides nothing itself.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir;
use rustc_middle::mir::{ConstValue, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

struct Cb {
    out: Option<String>,
    allow: Vec<String>,
    deny: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn bytes_json(b: &[u8]) -> String {
    let mut o = String::from("[");
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", x);
    }
    o.push(']');
    o
}

struct Ex<'tcx, 'a> {
    tcx: TyCtxt<'tcx>,
    cb: &'a Cb,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<(Ty<'tcx>, TypingEnv<'tcx>)>,
    type_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<(Instance<'tcx>, TypingEnv<'tcx>)>,
    queue: VecDeque<usize>,
    want_body: HashSet<usize>,
    seen_defs: HashSet<DefId>,
}

impl<'tcx, 'a> Ex<'tcx, 'a> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(d.krate), p)
        } else {
            p
        }
    }

    fn allowed(&self, d: DefId) -> bool {
        let kr = self.tcx.crate_name(d.krate).to_string();
        if d.is_local() || kr == "possum" {
            return true;
        }
        let p = format!("{}|{}", kr, self.tcx.def_path(d).to_string_no_crate_verbose());
        if self.cb.deny.iter().any(|a| p.starts_with(a.as_str())) {
            return false;
        }
        self.cb.allow.iter().any(|a| p.starts_with(a.as_str()))
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push((t, env));
        i
    }

    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push((i, env));
        let body = match i.def {
            InstanceKind::Item(d) => self.allowed(d) && self.tcx.is_mir_available(d),
            InstanceKind::Shim(s) => match s {
                ty::ShimKind::DropGlue(..) => false,
                _ => true,
            },
            _ => false,
        };
        if body {
            self.want_body.insert(k);
            self.queue.push_back(k);
        }
        k
    }

    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        // Library overrides of Iterator's provided methods are replaced by the provided body (a
        // plain loop over next), which has the same meaning and is analysable.
        let r = Instance::try_resolve(self.tcx, env, d, args).ok().flatten()?;
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let trp = self.tcx.def_path_str(tr);
            // the models of these consume an iterator by calling its next
            let last = trp.rsplit("::").next().unwrap_or("");
            let nm = self.tcx.item_name(d).to_string();
            let which = match (last, nm.as_str()) {
                ("Iterator", "collect") => Some(0),
                ("Extend", "extend") => Some(2),
                ("FromIterator", "from_iter") => Some(2),
                _ => None,
            };
            if let (Some(k), Some(nx)) = (which, self.tcx.lang_items().next_fn()) {
                if let Some(it) = args.types().nth(k) {
                    let na = self.tcx.mk_args(&[it.into()]);
                    if let Ok(Some(ni)) = Instance::try_resolve(self.tcx, env, nx, na) {
                        self.inst(ni, env);
                    }
                }
            }
            if (trp == "std::iter::Iterator" || trp == "core::iter::Iterator" || trp == "std::iter::DoubleEndedIterator")
                && self.tcx.defaultness(d).has_value()
            {
                if let InstanceKind::Item(rd) = r.def {
                    let kr = self.tcx.crate_name(rd.krate).to_string();
                    let nm = self.tcx.item_name(d).to_string();
                    if matches!(kr.as_str(), "core" | "alloc" | "std")
                        && !matches!(nm.as_str(), "collect" | "size_hint" | "next" | "nth" | "by_ref")
                        && self.tcx.is_mir_available(d)
                    {
                        let ni = Instance { def: InstanceKind::Item(d), args };
                        return Some(self.inst(ni, env));
                    }
                }
            }
        }
        Some(self.inst(r, env))
    }

    fn span(&self, sp: Span) -> String {
        let mut macs: Vec<String> = vec![];
        let mut s = sp;
        let mut n = 0;
        while s.from_expansion() && n < 12 {
            let d = s.ctxt().outer_expn_data();
            macs.push(match d.kind {
                rustc_span::ExpnKind::Macro(_, nm) => format!("{}!", nm),
                rustc_span::ExpnKind::Desugaring(k) => format!("{:?}", k),
                ref k => format!("{:?}", k),
            });
            s = d.call_site;
            n += 1;
        }
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        let m: Vec<String> = macs.iter().map(|m| esc(m)).collect();
        format!("[{},{},[{}]]", esc(&f), loc.line, m.join(","))
    }

    fn place(&mut self, p: &mir::Place<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(t, env);
                    format!("[\"f\",{},{}]", i.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end as u8)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) | ProjectionElem::PhantomDeref => {
                    "[\"nop\"]".to_string()
                }
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }

    fn scalar_int(&self, bits: u128, size: u64, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let v = ((bits << sh) as i128) >> sh;
                format!("[\"int\",\"{}\"]", v)
            }
            ty::Bool => format!("[\"bool\",{}]", bits),
            ty::Char => format!("[\"char\",{}]", bits),
            _ => format!("[\"int\",\"{}\"]", bits),
        }
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        if let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(id) {
            let a = a.inner();
            let r = off as usize..(off + len) as usize;
            if r.end <= a.size().bytes_usize() {
                return Some(a.inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec());
            }
        }
        None
    }

    // Structured form of an evaluated constant.
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        if depth > 8 {
            return "[\"opaque\"]".into();
        }
        let tid = self.ty(t, env);
        match (v, t.kind()) {
            (ConstValue::ZeroSized, ty::FnDef(..)) => format!("[\"fn\",{}]", tid),
            (ConstValue::ZeroSized, _) => {
                if let ty::Adt(..) | ty::Tuple(..) | ty::Array(..) = t.kind() {
                    return self.destruct(v, t, env, depth);
                }
                format!("[\"zst\",{}]", tid)
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _)) => {
                let inner = *inner;
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if e.is_integral() && self.size(*e, env) == Some(1)) {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                        let k = if inner.is_str() { "str" } else { "bytes" };
                        return format!("[\"{}\",{}]", k, bytes_json(&b));
                    }
                }
                if let ty::Slice(e) = inner.kind() {
                    return self.slice(alloc_id, 0, meta, *e, env, depth);
                }
                "[\"opaque\"]".into()
            }
            (ConstValue::Scalar(mir::interpret::Scalar::Int(i)), _) => {
                let size = i.size().bytes();
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destruct(v, t, env, depth),
                    _ => self.scalar_int(bits, size, t),
                }
            }
            (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match t.kind() {
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                        let inner = *inner;
                        self.pointee(id, off.bytes(), inner, env, depth)
                    }
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destruct(v, t, env, depth),
                    _ => match self.tcx.try_get_global_alloc(id) {
                        Some(mir::interpret::GlobalAlloc::Function { instance, .. }) => {
                            let k = self.inst(instance, env);
                            format!("[\"fnptr\",{}]", k)
                        }
                        _ => "[\"opaque\"]".into(),
                    },
                }
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, inner, _)) => {
                // A fat or thin pointer stored in memory.
                let inner = *inner;
                let off = offset.bytes() as usize;
                if let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let a = a.inner();
                    let ptr = a
                        .provenance()
                        .ptrs()
                        .iter()
                        .find(|(o, _)| o.bytes_usize() == off)
                        .map(|(_, p)| p.alloc_id());
                    if let Some(pid) = ptr {
                        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 8);
                        let poff = u64::from_le_bytes(raw.try_into().unwrap());
                        if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                            let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(off + 8..off + 16);
                            let len = u64::from_le_bytes(raw.try_into().unwrap());
                            if inner.is_str() {
                                if let Some(b) = self.alloc_bytes(pid, poff, len) {
                                    return format!("[\"str\",{}]", bytes_json(&b));
                                }
                            }
                            if let ty::Slice(e) = inner.kind() {
                                return self.slice(pid, poff, len, *e, env, depth);
                            }
                        } else {
                            return self.pointee(pid, poff, inner, env, depth);
                        }
                    }
                }
                "[\"opaque\"]".into()
            }
            (ConstValue::Indirect { .. }, ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) => self.destruct(v, t, env, depth),
            (ConstValue::Indirect { alloc_id, offset }, ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) => {
                if let Some(s) = self.size(t, env) {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), s) {
                        let mut bits: u128 = 0;
                        for (i, x) in b.iter().enumerate() {
                            bits |= (*x as u128) << (8 * i);
                        }
                        return self.scalar_int(bits, s, t);
                    }
                }
                "[\"opaque\"]".into()
            }
            _ => "[\"opaque\"]".into(),
        }
    }

    fn size(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<u64> {
        self.tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size.bytes())
    }

    fn slice(&mut self, id: mir::interpret::AllocId, off: u64, len: u64, e: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let Some(sz) = self.size(e, env) else { return "[\"opaque\"]".into() };
        if len > 256 {
            return "[\"opaque\"]".into();
        }
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
            if let Some(b) = self.alloc_bytes(id, off, len) {
                return format!("[\"bytes\",{}]", bytes_json(&b));
            }
        }
        let mut v = vec![];
        for i in 0..len {
            v.push(self.cval(
                ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off + i * sz) },
                e,
                env,
                depth + 1,
            ));
        }
        format!("[\"ref\",[\"array\",[{}]]]", v.join(","))
    }

    fn pointee(&mut self, id: mir::interpret::AllocId, off: u64, inner: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        match self.tcx.try_get_global_alloc(id) {
            Some(mir::interpret::GlobalAlloc::Static(d)) => {
                let p = self.path(d);
                let st = self.ty(inner, env);
                format!("[\"static\",{},{}]", esc(&p), st)
            }
            Some(mir::interpret::GlobalAlloc::Function { instance, .. }) => {
                let k = self.inst(instance, env);
                format!("[\"fnptr\",{}]", k)
            }
            Some(mir::interpret::GlobalAlloc::Memory(_)) => {
                let sz = self.size(inner, env);
                let v = if sz == Some(0) {
                    self.cval(ConstValue::ZeroSized, inner, env, depth + 1)
                } else {
                    self.cval(
                        ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) },
                        inner,
                        env,
                        depth + 1,
                    )
                };
                format!("[\"ref\",{}]", v)
            }
            _ => "[\"opaque\"]".into(),
        }
    }

    fn destruct(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tid = self.ty(t, env);
        if t.has_param() {
            return "[\"opaque\"]".into();
        }
        if let ty::Adt(d, _) = t.kind() {
            if d.is_union() {
                return "[\"opaque\"]".into();
            }
        }
        if let ty::Array(e, n) = t.kind() {
            if let (Some(n), ConstValue::Indirect { alloc_id, offset }) = (n.try_to_target_usize(self.tcx), v) {
                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), n) {
                        return format!("[\"bytearr\",{}]", bytes_json(&b));
                    }
                }
                if n > 300 {
                    return "[\"opaque\"]".into();
                }
            }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.cval(*fv, *ft, env, depth + 1));
                }
                match t.kind() {
                    ty::Array(..) => format!("[\"array\",[{}]]", fs.join(",")),
                    _ => format!(
                        "[\"agg\",{},{},[{}]]",
                        tid,
                        d.variant.map(|v| v.as_usize() as i64).unwrap_or(0),
                        fs.join(",")
                    ),
                }
            }
            None => format!("[\"zst\",{}]", tid),
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t, env);
        let val = match c.const_ {
            mir::Const::Val(v, _) => Some(v),
            _ => {
                // A promoted belongs to the body at hand, which can be a provided trait method that the
                // self type overrides (see resolve), so don't resolve it again.
                let own = match c.const_ {
                    mir::Const::Unevaluated(u, _) if u.promoted.is_some() && !c.const_.has_param() => {
                        let args = self.tcx.erase_and_anonymize_regions(u.args);
                        let cid = mir::interpret::GlobalId {
                            instance: Instance::new_raw(u.def, args),
                            promoted: u.promoted,
                        };
                        Some(self.tcx.const_eval_global_id(env, cid, c.span).ok())
                    }
                    _ => None,
                };
                if let Some(own) = own {
                    own
                } else if c.const_.has_param() {
                    None
                } else {
                    c.const_.eval(self.tcx, env, c.span).ok()
                }
            }
        };
        let nm = match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                let p = self.path(u.def);
                format!(",{}", esc(&p))
            }
            _ => String::new(),
        };
        let s = match val {
            Some(v) => self.cval(v, t, env, 0),
            None => "[\"opaque\"]".into(),
        };
        format!("[\"c\",{},{}{}]", s, tid, nm)
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, env)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, env)),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(_) => "[\"c\",[\"bool\",0],0]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.operand(o, env), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. }) as u8;
                format!("[\"ref\",{},{}]", self.place(p, env), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},2]", self.place(p, env)),
            Rvalue::ThreadLocalRef(d) => {
                let p = self.path(*d);
                format!("[\"tls\",{}]", esc(&p))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let st = {
                    // source type, for unsizing
                    match o {
                        Operand::Constant(c) => Some(c.const_.ty()),
                        _ => None,
                    }
                };
                let mut fk = -1i64;
                if let Some(st) = st {
                    if let ty::FnDef(d, a) = st.kind() {
                        if let Some(k) = self.resolve((*d).into(), a.no_bound_vars().unwrap_or(a.skip_binder()), env) {
                            fk = k as i64;
                        }
                    }
                }
                let t = self.ty(*t, env);
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(o, env), t, fk)
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(x, env), self.operand(y, env))
            }
            Rvalue::UnaryOp(op, x) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(x, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, env)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let os = os.join(",");
                match &**k {
                    mir::AggregateKind::Array(_) => format!("[\"arr\",[{}]]", os),
                    mir::AggregateKind::Tuple => format!("[\"tup\",[{}]]", os),
                    mir::AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.ty(t, env);
                        let f = f.map(|x| x.as_usize() as i64).unwrap_or(-1);
                        format!("[\"adt\",{},{},[{}],{}]", t, v.as_usize(), os, f)
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, (*d).try_into().unwrap(), a);
                        let t = self.ty(t, env);
                        format!("[\"clo\",{},[{}]]", t, os)
                    }
                    mir::AggregateKind::RawPtr(..) => format!("[\"rawptr\",[{}]]", os),
                    _ => "[\"opaque\"]".into(),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, env)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, env)),
        }
    }

    fn callee(&mut self, func: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        if let Operand::Constant(c) = func {
            if let ty::FnDef(d, a) = c.const_.ty().kind() {
                let d: DefId = (*d).into();
                let a: GenericArgsRef<'tcx> = a.no_bound_vars().unwrap_or(a.skip_binder());
                let targs: Vec<String> = a.types().map(|t| self.ty(t, env).to_string()).collect();
                let p = self.path(d);
                let r = self.resolve(d, a, env);
                let tr = match self.tcx.trait_of_assoc(d) {
                    Some(t) => {
                        let p = self.path(t);
                        esc(&p)
                    }
                    None => "null".into(),
                };
                return format!(
                    "{{\"def\":{},\"trait\":{},\"name\":{},\"targs\":[{}],\"inst\":{}}}",
                    esc(&p),
                    tr,
                    esc(self.tcx.item_name(d).as_str()),
                    targs.join(","),
                    r.map(|x| x.to_string()).unwrap_or("null".into())
                );
            }
        }
        format!("{{\"op\":{}}}", self.operand(func, env))
    }

    fn body(&mut self, k: usize) -> String {
        let (inst, env) = self.inst_list[k];
        let tcx = self.tcx;
        let b0 = tcx.instance_mir(inst.def);
        let b: mir::Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b0.clone()));
        let mut s = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty, env).to_string()).collect();
        let _ = write!(s, "\"argc\":{},\"locals\":[{}],", b.arg_count, locals.join(","));
        if let Some(sp) = b.spread_arg {
            let _ = write!(s, "\"spread\":{},", sp.as_usize());
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    dbg.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(s, "\"dbg\":[{}],", dbg.join(","));
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(format!("[\"=\",{},{}]", self.place(p, env), self.rvalue(r, env)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place, env), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    format!(
                        "[\"sw\",{},[{}],{}]",
                        self.operand(discr, env),
                        ts.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let pt = self.ty(pt, env);
                    format!("[\"drop\",{},{},{}]", self.place(place, env), target.as_usize(), pt)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&b.local_decls, tcx);
                            self.ty(t, env).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt, env);
                    format!(
                        "[\"call\",{},[{}],{},{},{},[{}],{}]",
                        c,
                        a.join(","),
                        self.place(destination, env),
                        target.map(|x| x.as_usize() as i64).unwrap_or(-1),
                        dt,
                        at.join(","),
                        self.span(t.source_info.span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) | mir::AssertKind::OverflowNeg(..) => "overflow",
                        mir::AssertKind::DivisionByZero(..) | mir::AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},{},\"{}\"]",
                        self.operand(cond, env),
                        *expected as u8,
                        target.as_usize(),
                        m
                    )
                }
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                _ => "[\"other\"]".into(),
            };
            let sp = self.span(t.source_info.span);
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"sp\":{}}}", st.join(","), term, sp));
        }
        let _ = write!(s, "\"blocks\":[{}]", blocks.join(",\n"));
        s
    }

    fn type_entry(&mut self, i: usize) -> String {
        let (t, env) = self.type_list[i];
        let tcx = self.tcx;
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let mut s = format!("{{\"n\":{},", esc(&name));
        match t.kind() {
            ty::Bool => s.push_str("\"k\":\"bool\""),
            ty::Char => s.push_str("\"k\":\"char\""),
            ty::Int(_) => s.push_str("\"k\":\"int\",\"signed\":1"),
            ty::Uint(_) => s.push_str("\"k\":\"int\",\"signed\":0"),
            ty::Float(_) => s.push_str("\"k\":\"float\""),
            ty::Str => s.push_str("\"k\":\"str\""),
            ty::Never => s.push_str("\"k\":\"never\""),
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                let _ = write!(
                    s,
                    "\"k\":\"adt\",\"path\":{},\"kind\":\"{}\",\"local\":{},",
                    esc(&p),
                    if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" },
                    (tcx.crate_name(d.did().krate).as_str() == "possum" || d.did().is_local()) as u8
                );
                let targs: Vec<String> = a.types().map(|t| self.ty(t, env).to_string()).collect();
                let _ = write!(s, "\"targs\":[{}],\"variants\":[", targs.join(","));
                let deep = d.did().is_local()
                    || matches!(
                        tcx.crate_name(d.did().krate).as_str(),
                        "possum" | "core" | "alloc" | "std" | "rusqlite" | "anyhow" | "nix" | "thiserror"
                    );
                let mut vs = vec![];
                for (vi, v) in d.variants().iter_enumerated() {
                    let discr = if d.is_enum() { d.discriminant_for_variant(tcx, vi).val } else { 0 };
                    let mut fs = vec![];
                    if deep {
                        for f in &v.fields {
                            let ft = f.ty(tcx, a).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            let ft = self.ty(ft, env);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), ft));
                        }
                    }
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", esc(v.name.as_str()), discr, fs.join(",")));
                }
                let _ = write!(s, "{}]", vs.join(","));
                if let Some(dtor) = tcx.adt_destructor(d.did()) {
                    let mut k = None;
                    if self.allowed(d.did()) {
                        // The Drop impl's generics match the type's.
                        let implid = tcx.parent(dtor.did);
                        let margs = ty::GenericArgs::identity_for_item(tcx, implid);
                        if margs.len() == a.len() {
                            if let Some(dm) = tcx.lang_items().drop_trait() {
                                let m = tcx.associated_item_def_ids(dm)[0];
                                let targs = tcx.mk_args(&[t.into()]);
                                k = self.resolve(m, targs, env);
                            }
                        }
                    }
                    let _ = write!(s, ",\"drop\":{}", k.map(|x| x.to_string()).unwrap_or("-1".into()));
                }
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x, env);
                let _ = write!(s, "\"k\":\"ref\",\"t\":{},\"mut\":{}", x, m.is_mut() as u8);
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(*x, env);
                let _ = write!(s, "\"k\":\"ptr\",\"t\":{},\"mut\":{}", x, m.is_mut() as u8);
            }
            ty::Slice(x) => {
                let x = self.ty(*x, env);
                let _ = write!(s, "\"k\":\"slice\",\"t\":{}", x);
            }
            ty::Array(x, n) => {
                let x = self.ty(*x, env);
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                let _ = write!(s, "\"k\":\"array\",\"t\":{},\"len\":{}", x, n);
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t, env).to_string()).collect();
                let _ = write!(s, "\"k\":\"tuple\",\"ts\":[{}]", v.join(","));
            }
            ty::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t, env).to_string()).collect();
                let p = self.path(*d);
                let kind = a.as_closure().kind();
                let mut k = None;
                if !t.has_infer() {
                    let args = tcx.erase_and_anonymize_regions(*a);
                    let i = Instance::new_raw((*d).into(), args);
                    k = Some(self.inst(i, env));
                }
                let _ = write!(
                    s,
                    "\"k\":\"closure\",\"path\":{},\"ups\":[{}],\"ck\":\"{:?}\",\"inst\":{}",
                    esc(&p),
                    ups.join(","),
                    kind,
                    k.map(|x| x.to_string()).unwrap_or("null".into())
                );
            }
            ty::FnDef(d, a) => {
                let d: DefId = (*d).into();
                let a = a.no_bound_vars().unwrap_or(a.skip_binder());
                let k = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { self.resolve(d, a, env) } else { None };
                let p = self.path(d);
                let mut ctor = String::new();
                if let DefKind::Ctor(..) = tcx.def_kind(d) {
                    // Constructor used as a function: name its type and variant.
                    let sig = tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip();
                    let out = tcx.instantiate_bound_regions_with_erased(sig.output());
                    let ot = self.ty(out, env);
                    let mut vi = 0usize;
                    if let ty::Adt(ad, _) = out.kind() {
                        if ad.is_enum() {
                            vi = ad.variant_index_with_ctor_id(d).as_usize();
                        }
                    }
                    ctor = format!(",\"ctor\":[{},{}]", ot, vi);
                }
                let _ = write!(
                    s,
                    "\"k\":\"fndef\",\"path\":{},\"inst\":{}{}",
                    esc(&p),
                    k.map(|x| x.to_string()).unwrap_or("null".into()),
                    ctor
                );
            }
            ty::FnPtr(..) => s.push_str("\"k\":\"fnptr\""),
            ty::Dynamic(..) => s.push_str("\"k\":\"dyn\""),
            ty::Param(_) => s.push_str("\"k\":\"param\""),
            _ => s.push_str("\"k\":\"other\""),
        }
        s.push('}');
        s
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(out) = self.out.clone() else { return Compilation::Continue };
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut ex = Ex {
            tcx,
            cb: self,
            types: HashMap::new(),
            type_list: vec![],
            type_json: vec![],
            insts: HashMap::new(),
            inst_list: vec![],
            queue: VecDeque::new(),
            want_body: HashSet::new(),
            seen_defs: HashSet::new(),
        };
        let mono = TypingEnv::fully_monomorphized();
        let mut roots = vec![];
        let mut generic = vec![];
        for &d in tcx.mir_keys(()) {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                generic.push(did);
            } else {
                roots.push(did);
            }
        }
        let mut rootjson = vec![];
        for did in &roots {
            let args = ty::GenericArgs::for_item(tcx, *did, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => unreachable!(),
            });
            let i = Instance { def: InstanceKind::Item(*did), args };
            let k = ex.inst(i, mono);
            rootjson.push(k.to_string());
        }
        let mut bodies: HashMap<usize, String> = HashMap::new();
        let mut tdone = 0;
        macro_rules! drain {
            () => {
                loop {
                    let mut progressed = false;
                    while let Some(k) = ex.queue.pop_front() {
                        progressed = true;
                        if let InstanceKind::Item(d) = ex.inst_list[k].0.def {
                            ex.seen_defs.insert(d);
                        }
                        let b = ex.body(k);
                        bodies.insert(k, b);
                    }
                    while tdone < ex.type_list.len() {
                        progressed = true;
                        let e = ex.type_entry(tdone);
                        ex.type_json.push(e);
                        tdone += 1;
                    }
                    if !progressed {
                        break;
                    }
                }
            };
        }
        drain!();
        // Generic functions nobody here instantiates: analysed with their own parameters.
        let mut generic_uninst = vec![];
        for did in generic {
            if ex.seen_defs.contains(&did) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let i = Instance { def: InstanceKind::Item(did), args: tcx.erase_and_anonymize_regions(args) };
            let k = ex.inst(i, env);
            generic_uninst.push(k.to_string());
            drain!();
        }
        let mut fns = vec![];
        for (k, (i, _)) in ex.inst_list.clone().iter().enumerate() {
            let d = i.def_id();
            let p = ex.path(d);
            let kind = match i.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(s) => match s {
                    ty::ShimKind::DropGlue(..) => "dropglue",
                    ty::ShimKind::ClosureOnce { .. } => "closure_once",
                    ty::ShimKind::FnPtr(..) => "fnptr",
                    ty::ShimKind::Clone(..) => "clone",
                    _ => "shim",
                },
                _ => "other",
            };
            let targs: Vec<String> = i
                .args
                .types()
                .map(|t| {
                    let t = tcx.erase_and_anonymize_regions(t);
                    ex.types.get(&t).map(|x| x.to_string()).unwrap_or("-1".into())
                })
                .collect();
            let name = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, i.args));
            let kr = tcx.crate_name(d.krate).to_string();
            let sp = ex.span(tcx.def_span(d));
            let public = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public();
            let nomangle = tcx.codegen_fn_attrs_opt(d, &*i);
            let mut s = format!(
                "{{\"id\":{},\"path\":{},\"name\":{},\"krate\":{},\"kind\":\"{}\",\"targs\":[{}],\"sp\":{},\"pub\":{},\"ext\":{}",
                k,
                esc(&p),
                esc(&name),
                esc(&kr),
                kind,
                targs.join(","),
                sp,
                public as u8,
                nomangle as u8
            );
            if let Some(tr) = tcx.opt_associated_item(d) {
                let cont = tcx.parent(d);
                let _ = tr;
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(cont) {
                    let t = tcx.impl_trait_ref(cont);
                    let p = ex.path(t.skip_binder().def_id);
                    let _ = write!(s, ",\"impltrait\":{},\"item\":{}", esc(&p), esc(tcx.item_name(d).as_str()));
                }
            }
            if let Some(b) = bodies.get(&k) {
                s.push(',');
                s.push_str(b);
            }
            s.push('}');
            fns.push(s);
        }
        let j = format!(
            "{{\"crate\":{},\"types\":[{}],\n\"fns\":[{}],\n\"roots\":[{}],\"generic\":[{}]}}",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            ex.type_json.join(",\n"),
            fns.join(",\n"),
            rootjson.join(","),
            generic_uninst.join(",")
        );
        std::fs::write(&out, j).unwrap();
        Compilation::Continue
    }
}

trait AttrsOpt {
    fn codegen_fn_attrs_opt(&self, d: DefId, i: &Instance<'_>) -> bool;
}
impl<'tcx> AttrsOpt for TyCtxt<'tcx> {
    fn codegen_fn_attrs_opt(&self, d: DefId, _i: &Instance<'_>) -> bool {
        if !matches!(self.def_kind(d), DefKind::Fn | DefKind::AssocFn) || !d.is_local() {
            return false;
        }
        self.codegen_fn_attrs(d).contains_extern_indicator()
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // Invoked as: driver /path/to/rustc ARGS... (cargo wrapper convention)
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut crate_name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = w[1].clone();
        }
    }
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let mut cb = Cb { out: None, allow: vec![], deny: vec![] };
    if crate_name == "possum" {
        if let Ok(dir) = std::env::var("VDRV_OUT") {
            cb.out = Some(format!("{}/{}.json", dir, if is_bin { "bin" } else { "lib" }));
        }
        if let Ok(f) = std::env::var("VDRV_ALLOW") {
            for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
                let l = l.trim();
                if let Some(d) = l.strip_prefix('!') {
                    cb.deny.push(d.to_string());
                } else if !l.is_empty() && !l.starts_with('#') {
                    cb.allow.push(l.to_string());
                }
            }
        }
    }
    // Crates whose bodies are exported along with possum's.
    if matches!(crate_name.as_str(), "possum" | "itertools" | "anyhow" | "take_mut") {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
