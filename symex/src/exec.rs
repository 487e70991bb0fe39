//! Path-forking symbolic interpreter over the parsed module.
use crate::expr::{bv_bin, mask64, Arena, Bv, Id, Op};
use crate::ir::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { K(u64), E(Id), A(Rc<Vec<V>>) }

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: Vec<u32> }
impl Obj {
    fn new(size: u64) -> Obj { Obj { size, data: vec![], sym: vec![] } }
    fn grow(&mut self, n: usize) { if self.data.len() < n { let c = n.max(self.data.len() * 2).min((self.size as usize).max(n)); self.data.resize(c, 0); } if !self.sym.is_empty() && self.sym.len() < self.data.len() { self.sym.resize(self.data.len(), 0); } }
    #[inline] fn byte(&self, i: usize) -> u8 { self.data.get(i).copied().unwrap_or(0) }
    #[inline] fn symb(&self, i: usize) -> u32 { self.sym.get(i).copied().unwrap_or(0) }
    fn set(&mut self, i: usize, b: Result<u8, Id>) {
        self.grow(i + 1);
        match b {
            Ok(b) => { self.data[i] = b; if !self.sym.is_empty() { self.sym[i] = 0; } }
            Err(e) => { if self.sym.is_empty() { self.sym = vec![0; self.data.len()]; } self.sym[i] = e; }
        }
    }
    fn any_sym(&self, off: usize, n: usize) -> bool { if self.sym.is_empty() { return false; } let e = (off + n).min(self.sym.len()); off < e && self.sym[off..e].iter().any(|x| *x != 0) }
}

#[derive(Clone)]
pub struct Frame { f: Arc<Func>, regs: Vec<V>, block: u32, pc: usize, allocas: Vec<u64>, ret: Option<u32>, cont: Option<u32> }

#[derive(Clone, Debug)]
pub enum Input { Sym(u32, Id), Choice(u64) }

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    gl: HashMap<u32, Rc<Obj>>,
    pc: Vec<Id>,
    model: Rc<Vec<u64>>,
    known: Rc<HashMap<Id, u64>>,
    /// variables which the path condition leaves one value, that of the model
    fixed: Rc<Vec<bool>>,
    /// values left to a variable of at most 8 bits by the conditions on it alone
    dom: Rc<HashMap<u32, [u64; 4]>>,
    inputs: Vec<Input>,
    pub steps: u64,
    allow_panic: bool,
    alloc_cap: u64,
    asserts: u32,
    trace: Vec<(u8, u32)>,
    shas: Rc<Vec<(Rc<Vec<Id>>, Rc<Vec<Id>>)>>,
    notes: Vec<(String, V, u32)>,
    heap_live: u64,
    sha_sym: bool,
    /// digests of symbolic inputs are arbitrary constants, different for different inputs
    const_sha: bool,
    seq: u64,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub id: u32, pub site: String, pub stack: Vec<String>, pub inputs: Vec<u64>, pub notes: Vec<String> }

#[derive(Default)]
pub struct Stats { pub paths: u64, pub paths_ok: u64, pub paths_rejected: u64, pub paths_panic: u64, pub forks: u64, pub steps: u64, pub asserts: u64, pub assert_queries: u64, pub queries: u64, pub sat: u64, pub unsat: u64, pub bytes: u64, pub cache_hits: u64, pub solver_s: f64, pub max_query_s: f64, pub wall_s: f64, pub max_pc: usize, pub nodes: usize, pub vars: u32 }

#[derive(Default)]
pub struct JobResult { pub violations: Vec<Violation>, pub errors: Vec<String>, pub covers: BTreeMap<u32, u64>, pub assert_ids: BTreeMap<u32, u64>, pub stats: Stats, pub funcs: BTreeSet<u32>, pub samples: Vec<Sample>, pub alloc_funcs: BTreeMap<String, u64> }

#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<u64>, pub trace: String, pub outcome: &'static str, pub sha: bool }

pub struct Limits { pub max_steps: u64, pub max_paths: u64, pub wall: Duration, pub query_ms: u32, pub max_values: u32 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    None, SymVar, Choice, Assume, Assert, Cover, Config, AllowPanic, AllocCap, Concretize, Reject, Note, Sha, ConstSha, IsReplay,
    Malloc, Calloc, Realloc, Free, RustAlloc, RustAllocZ, RustRealloc, RustDealloc, PosixMemalign, NoAllocShim,
    Memcpy, Memset, Memcmp, Bcmp, Strlen, HashKeys, Abort, Panic, Llvm,
}

enum Stop { Done, Rejected, Fork, Panic(String), Err(String) }
type R<T> = Result<T, Stop>;

pub struct Exec<'m> {
    pub m: &'m Module,
    pub intr: &'m [Intr],
    pub a: Arena,
    pub s: Solver,
    pub work: Vec<State>,
    pub res: JobResult,
    lim: Limits,
    cfg: u64,
    heap0: u64,
    start: Instant,
    seen_viol: BTreeSet<(String, u32, String)>,
    trace: bool,
    /// where paths split, counted for diagnosis (SYMEX_FORKS)
    splits: Option<BTreeMap<String, u64>>,
}

/// what a branch of a switch does before it joins the others
struct Arm { succ: u32, stores: Vec<(u64, Ty, V)>, phis: Vec<(u32, Ty, V)> }
enum Unit { Block(u32, Id), Merged { cond: Id, succ: u32, stores: Vec<(u64, Ty, V)>, phis: Vec<(u32, V)> } }
fn same_v(a: &V, b: &V) -> bool { match (a, b) { (V::K(x), V::K(y)) => x == y, (V::E(x), V::E(y)) => x == y, (V::A(x), V::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same_v(x, y)), _ => false } }

pub fn classify(m: &Module) -> Vec<Intr> {
    m.fns.iter().map(|f| {
        let n = f.name.as_str();
        match n {
            "sym_var" => Intr::SymVar, "sym_choice" => Intr::Choice, "sym_assume" => Intr::Assume, "sym_assert" => Intr::Assert, "sym_cover" => Intr::Cover,
            "sym_config" => Intr::Config, "sym_allow_panic" => Intr::AllowPanic, "sym_alloc_cap" => Intr::AllocCap, "sym_concretize" => Intr::Concretize,
            "sym_reject" => Intr::Reject, "sym_note" => Intr::Note, "sym_sha256_compress" => Intr::Sha, "sym_const_digests" => Intr::ConstSha, "sym_is_replay" => Intr::IsReplay,
            "malloc" => Intr::Malloc, "calloc" => Intr::Calloc, "realloc" => Intr::Realloc, "free" => Intr::Free, "posix_memalign" => Intr::PosixMemalign,
            "memcmp" => Intr::Memcmp, "bcmp" => Intr::Bcmp, "strlen" => Intr::Strlen, "memcpy" | "memmove" => Intr::Memcpy, "memset" => Intr::Memset, "abort" => Intr::Abort,
            _ if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") => Intr::Memcpy,
            _ if n.starts_with("llvm.memset") => Intr::Memset,
            _ if n.starts_with("llvm.") => Intr::Llvm,
            _ if n.ends_with("_rust_alloc") || n.ends_with("__rdl_alloc") || n.ends_with("_rg_alloc") => Intr::RustAlloc,
            _ if n.ends_with("_rust_alloc_zeroed") || n.ends_with("__rdl_alloc_zeroed") => Intr::RustAllocZ,
            _ if n.ends_with("_rust_realloc") || n.ends_with("__rdl_realloc") => Intr::RustRealloc,
            _ if n.ends_with("_rust_dealloc") || n.ends_with("__rdl_dealloc") => Intr::RustDealloc,
            _ if n.contains("rust_no_alloc_shim_is_unstable") => Intr::NoAllocShim,
            _ if n.contains("hashmap_random_keys") => Intr::HashKeys,
            _ if f.noreturn && !f.pretty.starts_with("harness::sym") => Intr::Panic,
            _ => Intr::None,
        }
    }).collect()
}

pub fn demangle(n: &str) -> String {
    // v0 mangling: collect the identifiers; good enough for reports
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            // skip base-62 disambiguators: "s<base62>_" handled below
            let mut j = i; let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { l = l.saturating_mul(10).saturating_add((b[j] - b'0') as usize); j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if l > 0 && j + l <= b.len() && n.is_char_boundary(j) && n.is_char_boundary(j + l) && n[j..j + l].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') { out.push(&n[j..j + l]); i = j + l; continue; }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator or backref: s<base62>_ / B<base62>_
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i <= 16 { i = j + 1; } else { i += 1; }
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, intr: &'m [Intr], lim: Limits, cfg: u64) -> Exec<'m> {
        let s = Solver::new(lim.query_ms);
        Exec { m, intr, a: Arena::new(), s, work: vec![], res: JobResult::default(), lim, cfg, heap0: m.heap0(), start: Instant::now(), seen_viol: BTreeSet::new(), trace: std::env::var("SYMEX_TRACE").is_ok(), splits: std::env::var("SYMEX_FORKS").ok().map(|_| BTreeMap::new()) }
    }

    pub fn run(mut self, f: u32) -> JobResult {
        let func = match self.m.func(f) { Ok(f) => f, Err(e) => { self.res.errors.push(e); return self.res; } };
        self.s.deadline = Some(self.start + self.lim.wall);
        let fr = Frame { regs: vec![V::K(0); func.nregs as usize], f: func, block: 0, pc: 0, allocas: vec![], ret: None, cont: None };
        self.work.push(State { frames: vec![Rc::new(fr)], mem: vec![], free: vec![], gl: HashMap::new(), pc: vec![], model: Rc::new(vec![]), known: Rc::new(HashMap::new()), fixed: Rc::new(vec![]), dom: Rc::new(HashMap::new()), inputs: vec![], steps: 0, allow_panic: false, alloc_cap: u64::MAX, asserts: 0, trace: vec![], shas: Rc::new(vec![]), notes: vec![], heap_live: 0, sha_sym: false, const_sha: false, seq: 0 });
        while let Some(mut st) = self.work.pop() {
            if self.start.elapsed() > self.lim.wall { self.res.errors.push(format!("time limit of {:?} reached after {} paths, {} pending", self.lim.wall, self.res.stats.paths, self.work.len() + 1)); break; }
            if self.res.stats.paths > self.lim.max_paths { self.res.errors.push(format!("path limit {} reached", self.lim.max_paths)); break; }
            let r = self.run_state(&mut st);
            let mut ended = true;
            match r {
                Stop::Done => { self.res.stats.paths_ok += 1;
                    self.sample(&st, "ok"); }
                Stop::Rejected => self.res.stats.paths_rejected += 1,
                Stop::Fork => ended = false,
                Stop::Panic(site) => { self.res.stats.paths_panic += 1; if !st.allow_panic { let model = st.model.clone(); self.violation(&st, "panic", 0, site, &model); } else { self.sample(&st, "ok allowed-panic"); } }
                Stop::Err(e) => { let s = self.stack(&st); let e = format!("{e} at {}", s.join(" < ")); if self.res.errors.len() < 20 { self.res.errors.push(e); } }
            }
            if ended { self.res.stats.paths += 1; self.res.stats.max_pc = self.res.stats.max_pc.max(st.pc.len()); for (k, c) in &st.trace { if *k == b'c' { *self.res.covers.entry(*c).or_insert(0) += 1; } else { *self.res.assert_ids.entry(*c).or_insert(0) += 1; } } self.res.stats.asserts += st.asserts as u64; }
            if self.res.errors.len() >= 20 { break; }
        }
        if let Some(m) = &self.splits { let mut v: Vec<_> = m.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, n) in v.iter().take(25) { eprintln!("{n:8} {k}"); } }
        let st = &mut self.res.stats;
        st.queries = self.s.queries; st.sat = self.s.sat; st.unsat = self.s.unsat; st.cache_hits = self.s.cache_hits;
        st.solver_s = self.s.time.as_secs_f64(); st.max_query_s = self.s.max_time.as_secs_f64(); st.wall_s = self.start.elapsed().as_secs_f64();
        st.nodes = self.a.nodes.len(); st.vars = self.a.nvars;
        self.res
    }

    /// witnesses of completed paths (at path counts 1, 2, 4, 8, ...), replayed natively by the driver
    fn sample(&mut self, st: &State, outcome: &'static str) {
        let n = self.res.stats.paths_ok + self.res.stats.paths_panic;
        if !n.is_power_of_two() && n != 3 { return; }
        let inputs = self.inputs_of(st, &st.model.clone());
        let trace: String = st.trace.iter().map(|(k, i)| format!("{}{} ", *k as char, i)).collect();
        self.res.samples.push(Sample { inputs, trace, outcome, sha: st.sha_sym });
    }
    fn stack(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(14).map(|f| demangle(&f.f.name)).collect() }
    fn inputs_of(&mut self, st: &State, model: &[u64]) -> Vec<u64> {
        st.inputs.clone().iter().map(|i| match i { Input::Sym(_, id) => self.a.eval(*id, model).u64(), Input::Choice(v) => *v }).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, id: u32, site: String, model: &[u64]) {
        let stack = self.stack(st);
        if !self.seen_viol.insert((kind.to_string(), id, site.clone())) { return; }
        let inputs = self.inputs_of(st, model);
        let notes = st.notes.clone().iter().map(|(n, v, w)| { let x = match v { V::K(k) => *k, V::E(e) => self.a.eval(*e, model).u64(), _ => 0 }; format!("{n}={x} (w{w})") }).collect();
        self.res.violations.push(Violation { kind: kind.into(), id, site, stack, inputs, notes });
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            st.steps += 1;
            if st.steps & 0xfff == 0 {
                self.res.stats.steps += 0x1000;
                if st.steps > self.lim.max_steps { let m = st.model.clone(); self.violation(st, "hang", 0, "step limit".into(), &m); return Stop::Rejected; }
                if st.steps & 0xfffff == 0 && self.start.elapsed() > self.lim.wall { return Stop::Err("time limit inside a path".into()); }
            }
        }
    }

    // ---------- values
    #[inline] fn norm(&self, e: Id) -> V { if self.a.w(e) <= 64 { if let Some(k) = self.a.konst(e) { return V::K(k.u64()); } } V::E(e) }
    fn ex(&mut self, v: &V, w: u32) -> Id { match v { V::K(k) => self.a.kc(w, *k), V::E(e) => *e, V::A(_) => panic!("aggregate as scalar") } }
    fn op(&mut self, st: &State, o: &O) -> V {
        match o {
            O::Reg(r) => { let v = &st.frames.last().unwrap().regs[*r as usize]; if let V::E(e) = v { if let Some(k) = st.known.get(e) { return V::K(*k); } let e = *e; if !st.fixed.is_empty() && self.a.w(e) <= 64 && self.a.vars(e).len() <= 4 && self.is_fixed(st, e) { let m = st.model.clone(); return V::K(self.a.eval(e, &m).u64()); } } v.clone() }
            O::K(k) => V::K(*k),
            O::Wide(l) => { let w = l.len() as u32 * 64; let id = self.a.k(w, Bv::from_limbs(w, l.clone())); V::E(id) }
            O::Agg(v) => { let x: Vec<V> = v.iter().map(|o| self.op(st, o)).collect(); V::A(Rc::new(x)) }
        }
    }
    /// operand of a known integer type (fixes the width of wide constants)
    fn opt(&mut self, st: &State, o: &O, t: &Ty) -> V {
        if let O::Wide(l) = o { let w = t.bits(); let id = self.a.k(w, Bv::from_limbs(w, l.clone())); return V::E(id); }
        if let O::K(k) = o { if let Ty::Int(w) = t { if *w > 64 { let id = self.a.kc(*w, *k); return V::E(id); } } }
        self.op(st, o)
    }
    fn set(&mut self, st: &mut State, d: u32, v: V) { if d != u32::MAX { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; } }

    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::K(x), V::K(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y); let m = mask64(w);
                return V::K(match op {
                    BinOp::Add => x.wrapping_add(y) & m, BinOp::Sub => x.wrapping_sub(y) & m, BinOp::Mul => x.wrapping_mul(y) & m,
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { (x << y) & m }, BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::AShr => { let s = sx(x, w); (if y >= w as u64 { s >> 63 } else { s >> y }) as u64 & m }
                    BinOp::UDiv => if y == 0 { m } else { x / y }, BinOp::URem => if y == 0 { x } else { x % y },
                    BinOp::SDiv => { let (p, q) = (sx(x, w), sx(y, w)); if q == 0 { m } else { p.wrapping_div(q) as u64 & m } }
                    BinOp::SRem => { let (p, q) = (sx(x, w), sx(y, w)); if q == 0 { x } else { p.wrapping_rem(q) as u64 & m } }
                });
            }
        }
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr };
        let x = self.ex(a, w); let y = self.ex(b, w);
        let r = self.a.bin(o, x, y); self.norm(r)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::K(x), V::K(y)) = (a, b) {
            let (x, y) = (*x, *y); let (sx_, sy) = (sx(x, w), sx(y, w));
            return V::K(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx_ > sy, Pred::Sge => sx_ >= sy, Pred::Slt => sx_ < sy, Pred::Sle => sx_ <= sy } as u64);
        }
        let x = self.ex(a, w); let y = self.ex(b, w);
        let r = match p {
            Pred::Eq => self.a.bin(Op::Eq, x, y), Pred::Ne => { let e = self.a.bin(Op::Eq, x, y); self.a.not(e) }
            Pred::Ugt => self.a.bin(Op::Ult, y, x), Pred::Uge => self.a.bin(Op::Ule, y, x), Pred::Ult => self.a.bin(Op::Ult, x, y), Pred::Ule => self.a.bin(Op::Ule, x, y),
            Pred::Sgt => self.a.bin(Op::Slt, y, x), Pred::Sge => self.a.bin(Op::Sle, y, x), Pred::Slt => self.a.bin(Op::Slt, x, y), Pred::Sle => self.a.bin(Op::Sle, x, y),
        };
        self.norm(r)
    }
    fn ite(&mut self, c: Id, a: &V, b: &V, t: &Ty) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => { let r: Vec<V> = (0..x.len()).map(|i| self.ite(c, &x[i], &y[i], t.field(i))).collect(); V::A(Rc::new(r)) }
            _ => { let w = t.bits(); let x = self.ex(a, w); let y = self.ex(b, w); let r = self.a.ite(c, x, y); self.norm(r) }
        }
    }
    fn to_bits(&mut self, v: &V, t: &Ty) -> V {
        match (v, t) {
            (V::A(l), Ty::Vec(n, et)) => {
                let w = et.bits();
                if w * n <= 64 && l.iter().all(|x| matches!(x, V::K(_))) { let mut r = 0u64; for (i, x) in l.iter().enumerate() { if let V::K(k) = x { r |= k << (i as u32 * w); } } return V::K(r); }
                let mut acc: Option<Id> = None;
                for x in l.iter() { let e = self.ex(x, w); acc = Some(match acc { None => e, Some(lo) => self.a.bin(Op::Concat, e, lo) }); }
                self.norm(acc.unwrap())
            }
            _ => v.clone(),
        }
    }
    fn from_bits(&mut self, v: &V, t: &Ty) -> V {
        if let Ty::Vec(n, et) = t {
            let w = et.bits(); let mut r = vec![];
            let e = self.ex(v, w * n);
            for i in 0..*n { let x = self.a.extract(e, i * w, w); r.push(self.norm(x)); }
            return V::A(Rc::new(r));
        }
        v.clone()
    }

    // ---------- path conditions
    fn push_pc(&mut self, st: &mut State, c: Id) {
        if c == 1 { return; }
        if let crate::expr::Node::Bin(Op::And, x, y) = self.a.nodes[c as usize] { if self.a.w(c) == 1 { self.push_pc(st, x); self.push_pc(st, y); return; } }
        if !st.pc.contains(&c) {
            st.pc.push(c);
            if let Some(v) = self.small_var(c) { let d = self.narrow(st, c, v); if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 { let id = self.a.var_ids[v as usize]; self.fix(st, id); } Rc::make_mut(&mut st.dom).insert(v, d); }
            let kn = Rc::make_mut(&mut st.known);
            kn.insert(c, 1);
            let n = self.a.not(c); Rc::make_mut(&mut st.known).insert(n, 0);
            if let crate::expr::Node::Bin(Op::Eq, x, y) = self.a.nodes[c as usize] { if self.a.is_const(y) { self.fix(st, x) } }
            if self.a.w(c) == 1 { self.fix(st, c); }
            if let crate::expr::Node::Bin(Op::Eq, x, y) = self.a.nodes[c as usize] { if self.a.w(x) <= 64 { if let Some(k) = self.a.konst(y) { let k = k.u64(); Rc::make_mut(&mut st.known).insert(x, k); } } }
        }
    }
    /// an expression has one value: with it the variables it is put together from
    fn fix(&mut self, st: &mut State, e: Id) {
        use crate::expr::Node::*;
        match self.a.nodes[e as usize] {
            Var(_, n) => { let f = Rc::make_mut(&mut st.fixed); if f.len() <= n as usize { f.resize(n as usize + 1, false); } f[n as usize] = true; }
            ZExt(x, _) | SExt(x, _) => self.fix(st, x),
            Bin(Op::Concat, x, y) => { self.fix(st, x); self.fix(st, y); }
            Bin(Op::Xor | Op::Add | Op::Sub, x, y) => if self.a.is_const(y) { self.fix(st, x) } else if self.a.is_const(x) { self.fix(st, y) },
            _ => {}
        }
    }
    /// the only variable of an expression, if it has at most 8 bits
    fn small_var(&mut self, c: Id) -> Option<u32> {
        let vs = self.a.vars(c);
        if vs.len() != 1 || self.a.w(self.a.var_ids[vs[0] as usize]) > 8 { return None; }
        Some(vs[0])
    }
    /// the values left to a variable which satisfy a condition
    fn narrow(&mut self, st: &State, c: Id, v: u32) -> [u64; 4] {
        let mut d = st.dom.get(&v).copied().unwrap_or([u64::MAX; 4]);
        let w = self.a.w(self.a.var_ids[v as usize]);
        let mut m = (*st.model).clone();
        m.resize(self.a.nvars as usize, 0);
        for x in 0..256u64 {
            let b = 1u64 << (x & 63);
            if d[x as usize / 64] & b == 0 { continue; }
            m[v as usize] = x;
            if x >> w != 0 || !self.a.eval_bool(c, &m) { d[x as usize / 64] &= !b; }
        }
        d
    }
    fn is_fixed(&mut self, st: &State, e: Id) -> bool { self.a.vars(e).iter().all(|v| st.fixed.get(*v as usize) == Some(&true)) }
    fn slice(&mut self, st: &State, c: Id) -> Vec<Id> {
        let mut inset: HashMap<u32, ()> = HashMap::new();
        for v in self.a.vars(c).iter() { inset.insert(*v, ()); }
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![c];
        let vs: Vec<Rc<[u32]>> = st.pc.iter().map(|e| self.a.vars(*e)).collect();
        loop {
            let mut ch = false;
            for i in 0..vs.len() {
                if used[i] { continue; }
                if vs[i].iter().any(|v| inset.contains_key(v)) { used[i] = true; ch = true; for v in vs[i].iter() { inset.insert(*v, ()); } out.push(st.pc[i]); }
            }
            if !ch { break; }
        }
        out
    }
    /// satisfiable together with the path condition? returns a full model
    fn sat(&mut self, st: &State, c: Id) -> R<Option<Vec<u64>>> { self.sat_by(st, c, true) }
    /// quick: conditions on one byte, or on variables with one value left, need no solver
    fn sat_by(&mut self, st: &State, c: Id, quick: bool) -> R<Option<Vec<u64>>> {
        if c == 0 { return Ok(None); }
        if quick && !st.fixed.is_empty() && self.is_fixed(st, c) { self.res.stats.bytes += 1; let m = (*st.model).clone(); return Ok(if self.a.eval_bool(c, &m) { Some(m) } else { None }); }
        let cs = self.slice(st, c);
        // conditions on one small variable only
        if let Some(v) = self.small_var(c).filter(|_| quick) {
            if cs.iter().all(|e| self.a.vars(*e).len() == 1) {
                self.res.stats.bytes += 1;
                let d = self.narrow(st, c, v);
                return Ok((0..4).find(|i| d[*i] != 0).map(|i| { let mut m = (*st.model).clone(); m[v as usize] = i as u64 * 64 + d[i].trailing_zeros() as u64; m }));
            }
        }
        match self.s.check(&mut self.a, cs.clone()) {
            Res::Unsat => Ok(None),
            Res::Sat(vals) => {
                let mut m = (*st.model).clone();
                m.resize(self.a.nvars as usize, 0);
                for (v, x) in vals { m[v as usize] = x; }
                for e in cs { if !self.a.eval_bool(e, &m) { return Err(Stop::Err(format!("solver model rejected by evaluator: {}", self.a.show(e, 6)))); } }
                Ok(Some(m))
            }
            Res::Unknown => Err(Stop::Err("solver gave no answer within the limit".into())),
        }
    }
    fn split(&mut self, st: &State, what: &str) {
        self.res.stats.forks += 1;
        if let Some(m) = &mut self.splits { let k = st.frames.iter().rev().take(4).map(|f| format!("{}:b{}.{}", demangle(&f.f.name), f.block, f.pc)).collect::<Vec<_>>().join(" < "); *m.entry(format!("{what} {k}")).or_insert(0) += 1; }
    }
    /// decide a boolean: forks the other side when both are feasible
    fn decide(&mut self, st: &mut State, c: &V) -> R<bool> {
        let e = match c { V::K(k) => return Ok(k & 1 == 1), V::E(e) => *e, _ => panic!() };
        if let Some(k) = st.known.get(&e) { return Ok(*k == 1); }
        let model = st.model.clone();
        let cur = self.a.eval_bool(e, &model);
        let ne = self.a.not(e);
        let (mine, other) = if cur { (e, ne) } else { (ne, e) };
        if let Some(m) = self.sat(st, other)? {
            let mut o = st.clone();
            o.model = Rc::new(m);
            self.push_pc(&mut o, other);
            self.split(st, "branch");
            self.work.push(o);
            self.push_pc(st, mine);
        } else {
            let kn = Rc::make_mut(&mut st.known); kn.insert(mine, 1); kn.insert(other, 0);
        }
        Ok(cur)
    }
    /// pick one value; other feasible values are explored by forked states re-executing the instruction
    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        let e = match v { V::K(k) => return Ok(*k), V::E(e) => *e, _ => panic!() };
        if let Some(k) = st.known.get(&e) { return Ok(*k); }
        let model = st.model.clone();
        let k = self.a.eval(e, &model).u64();
        let kk = self.a.kc(w, k);
        let eq = self.a.bin(Op::Eq, e, kk);
        let ne = self.a.not(eq);
        if let Some(m) = self.sat(st, ne)? {
            let mut o = st.clone();
            o.model = Rc::new(m);
            self.push_pc(&mut o, ne);
            self.split(st, "value");
            self.work.push(o);
            if self.work.len() > 200_000 { return Err(Stop::Err("too many pending states".into())); }
            self.push_pc(st, eq);
        } else { self.fix(st, e); }
        Rc::make_mut(&mut st.known).insert(e, k);
        Ok(k)
    }
    /// largest value of an expression on this path
    fn umax(&mut self, st: &State, e: Id, w: u32) -> R<u64> {
        let (mut lo, mut hi) = (self.a.eval(e, &st.model.clone()).u64(), mask64(w).min(self.a.umax(e)));
        // exponential then binary search
        while lo < hi {
            let mid = if hi - lo > 1 << 20 && lo < 1 << 40 { (lo + 1).saturating_mul(2).min(hi - 1) } else { lo + (hi - lo) / 2 };
            let mk = self.a.kc(w, mid); let c = self.a.bin(Op::Ult, mk, e);
            match self.sat(st, c)? { Some(m) => { lo = self.a.eval(e, &m).u64().max(mid + 1); } None => hi = mid }
        }
        Ok(lo)
    }

    // ---------- memory
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        st.seq += 1;
        let o = Rc::new(Obj::new(size));
        let ix = if let Some(i) = st.free.pop() { st.mem[i as usize] = Some(o); i as u64 } else { st.mem.push(Some(o)); st.mem.len() as u64 - 1 };
        (self.heap0 + ix) << SH
    }
    fn release(&mut self, st: &mut State, addr: u64) -> R<()> {
        let ix = (addr >> SH).wrapping_sub(self.heap0) as usize;
        if ix >= st.mem.len() || st.mem[ix].is_none() { return Err(Stop::Err(format!("free of {addr:#x}"))); }
        st.mem[ix] = None; st.free.push(ix as u32); Ok(())
    }
    fn with_obj<T>(&mut self, st: &State, addr: u64, n: u64, f: impl FnOnce(&Obj, usize) -> T) -> R<T> {
        let (o, off) = (addr >> SH, addr & 0xffff_ffff);
        if o >= self.heap0 {
            let ix = (o - self.heap0) as usize;
            match st.mem.get(ix) { Some(Some(ob)) => { if off + n > ob.size { return Err(Stop::Err(format!("out of bounds read {off}+{n} of {}", ob.size))); } Ok(f(ob, off as usize)) } _ => Err(Stop::Err(format!("read of freed object {addr:#x}"))) }
        } else if o >= 1 && o <= self.m.globals.len() as u64 {
            let g = (o - 1) as u32;
            if let Some(ob) = st.gl.get(&g) { if off + n > ob.size { return Err(Stop::Err("global oob".into())); } return Ok(f(ob, off as usize)); }
            let d = self.m.global_data(g);
            if off + n > d.len() as u64 { return Err(Stop::Err(format!("out of bounds read of global {} {off}+{n}", self.m.globals[g as usize].name))); }
            // read only view
            let view = Obj { size: n, data: d[off as usize..(off + n) as usize].to_vec(), sym: vec![] };
            Ok(f(&view, 0))
        } else if n == 0 { Ok(f(&Obj::new(0), 0)) } else { Err(Stop::Err(format!("read at invalid address {addr:#x}"))) }
    }
    fn with_mut<T>(&mut self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> T) -> R<T> {
        let (o, off) = (addr >> SH, addr & 0xffff_ffff);
        if o >= self.heap0 {
            let ix = (o - self.heap0) as usize;
            match st.mem.get_mut(ix) { Some(Some(ob)) => { if off + n > ob.size { return Err(Stop::Err(format!("out of bounds write {off}+{n} of {}", ob.size))); } Ok(f(Rc::make_mut(ob), off as usize)) } _ => Err(Stop::Err(format!("write to freed object {addr:#x}"))) }
        } else if o >= 1 && o <= self.m.globals.len() as u64 {
            let g = (o - 1) as u32;
            if self.m.globals[g as usize].constant { return Err(Stop::Err("write to a constant".into())); }
            let m = self.m;
            let ob = st.gl.entry(g).or_insert_with(|| { let d = m.global_data(g).to_vec(); Rc::new(Obj { size: d.len() as u64, data: d, sym: vec![] }) });
            if off + n > ob.size { return Err(Stop::Err("global oob write".into())); }
            Ok(f(Rc::make_mut(ob), off as usize))
        } else if n == 0 { Ok(f(&mut Obj::new(0), 0)) } else { Err(Stop::Err(format!("write at invalid address {addr:#x}"))) }
    }
    fn read_scalar(&mut self, st: &State, addr: u64, bits: u32) -> R<V> {
        let n = ((bits + 7) / 8) as usize;
        enum X { K(u64), Bytes(Vec<Result<u8, Id>>) }
        let x = self.with_obj(st, addr, n as u64, |o, off| {
            if n <= 8 && !o.any_sym(off, n) {
                let mut v = 0u64;
                if off + n <= o.data.len() { for i in 0..n { v |= (o.data[off + i] as u64) << (8 * i); } } else { for i in 0..n { v |= (o.byte(off + i) as u64) << (8 * i); } }
                X::K(v)
            } else { X::Bytes((0..n).map(|i| { let s = o.symb(off + i); if s != 0 { Err(s) } else { Ok(o.byte(off + i)) } }).collect()) }
        })?;
        Ok(match x {
            X::K(v) => V::K(v & mask64(bits)),
            X::Bytes(bs) => {
                let mut acc: Option<Id> = None;
                for b in bs { let e = match b { Ok(k) => self.a.kc(8, k as u64), Err(e) => e }; acc = Some(match acc { None => e, Some(lo) => self.a.bin(Op::Concat, e, lo) }); }
                let mut e = acc.unwrap();
                if self.a.w(e) > bits { e = self.a.extract(e, 0, bits); }
                let v = self.norm(e);
                if let V::E(e) = v { if let Some(k) = st.known.get(&e) { return Ok(V::K(*k)); } }
                v
            }
        })
    }
    fn write_scalar(&mut self, st: &mut State, addr: u64, bits: u32, v: &V) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            V::K(k) => { let k = *k; self.with_mut(st, addr, n as u64, |o, off| {
                o.grow(off + n);
                for i in 0..n { o.data[off + i] = if i < 8 { (k >> (8 * i)) as u8 } else { 0 }; }
                if !o.sym.is_empty() { for i in 0..n { o.sym[off + i] = 0; } }
            }) }
            V::E(e) => {
                let mut e = *e;
                if self.a.w(e) < n as u32 * 8 { e = self.a.zext(e, n as u32 * 8); }
                let bs: Vec<Result<u8, Id>> = (0..n).map(|i| { let x = self.a.extract(e, i as u32 * 8, 8); match self.a.konst(x) { Some(k) => Ok(k.u64() as u8), None => Err(x) } }).collect();
                self.with_mut(st, addr, n as u64, |o, off| { for (i, b) in bs.into_iter().enumerate() { o.set(off + i, b); } })
            }
            V::A(_) => panic!(),
        }
    }
    fn load(&mut self, st: &State, addr: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Int(w) => self.read_scalar(st, addr, *w), Ty::Ptr => self.read_scalar(st, addr, 64), Ty::Float(w) => self.read_scalar(st, addr, *w),
            Ty::Vec(n, et) if et.bits() % 8 != 0 => { let v = self.read_scalar(st, addr, n * et.bits())?; Ok(self.from_bits(&v, t)) }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => { let mut r = vec![]; for i in 0..t.nfields() { r.push(self.load(st, addr + t.field_off(i), t.field(i))?); } Ok(V::A(Rc::new(r))) }
            _ => Err(Stop::Err(format!("load of {t:?}"))),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &V) -> R<()> {
        match t {
            Ty::Int(w) => self.write_scalar(st, addr, *w, v), Ty::Ptr => self.write_scalar(st, addr, 64, v), Ty::Float(w) => self.write_scalar(st, addr, *w, v),
            Ty::Vec(n, et) if et.bits() % 8 != 0 => { let b = self.to_bits(v, t); self.write_scalar(st, addr, n * et.bits(), &b) }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => { let V::A(l) = v else { return Err(Stop::Err("store aggregate".into())) }; for i in 0..t.nfields() { self.store(st, addr + t.field_off(i), t.field(i), &l[i])?; } Ok(()) }
            _ => Err(Stop::Err(format!("store of {t:?}"))),
        }
    }
    /// symbolic load: few candidate addresses => merged value; otherwise fork over addresses
    fn load_sym(&mut self, st: &mut State, e: Id, t: &Ty) -> R<V> {
        if matches!(t, Ty::Int(_)) {
            if let Some(r) = self.load_merged(st, e, t, 4)? { return Ok(self.norm(r)); }
        }
        let a = self.concretize(st, &V::E(e), 64)?;
        self.load(st, a, t)
    }
    fn load_merged(&mut self, st: &mut State, e: Id, t: &Ty, depth: u32) -> R<Option<Id>> {
        use crate::expr::Node;
        let w = t.bits();
        if let Some(k) = self.a.konst(e) { return Ok(match self.load(st, k.u64(), t) { Ok(v) => Some(self.ex(&v, w)), Err(_) => None }); }
        // constant base and bounded index
        let (b, idx) = match self.a.nodes[e as usize].clone() {
            Node::Ite(c, x, y) if depth > 0 => {
                let (Some(x), Some(y)) = (self.load_merged(st, x, t, depth - 1)?, self.load_merged(st, y, t, depth - 1)?) else { return Ok(None) };
                return Ok(Some(self.a.ite(c, x, y)));
            }
            Node::Bin(Op::Add, idx, base) => match self.a.konst(base) { Some(b) => (b.u64(), idx), None => return Ok(None) },
            Node::Bin(Op::Concat, hi, lo) => match self.a.konst(hi) { Some(h) if self.a.w(lo) < 64 => { let b = h.u64() << self.a.w(lo); (b, self.a.zext(lo, 64)) } _ => return Ok(None) },
            _ => return Ok(None),
        };
        let hi = self.a.umax(idx);
        if b >> SH == 0 || hi > 4096 { return Ok(None); }
        let step = 1u64 << self.a.zero_low(idx).min(12);
        let n = t.store_size();
        let (o, off) = (b >> SH, b & 0xffff_ffff);
        let size = if o >= self.heap0 { st.mem.get((o - self.heap0) as usize).and_then(|x| x.as_ref()).map(|x| x.size).unwrap_or(0) } else if o <= self.m.globals.len() as u64 { self.m.globals[(o - 1) as usize].size } else { 0 };
        let mut cand = vec![];
        let mut k = 0;
        while k <= hi { if off + k + n <= size { cand.push(k); } k += step; }
        if cand.len() > 512 || cand.is_empty() { return Ok(None); }
        // out-of-range index must be infeasible
        let lastk = *cand.last().unwrap();
        if off + hi + n > size { let lk = self.a.kc(64, lastk); let oob = self.a.bin(Op::Ult, lk, idx); if self.sat(st, oob)?.is_some() { if depth < 4 { return Ok(None); } return Err(Stop::Err("symbolic out of bounds read".into())); } }
        if let Some(r) = self.tabulate(st, idx, b, t, off, size)? { return Ok(Some(r)); }
        let mut acc: Option<Id> = None;
        for k in cand.iter().rev() {
            let v = self.load(st, b + k, t)?; let v = self.ex(&v, w);
            acc = Some(match acc { None => v, Some(r) => { let kk = self.a.kc(64, *k); let c = self.a.bin(Op::Eq, idx, kk); self.a.ite(c, v, r) } });
        }
        Ok(acc)
    }
    /// a table of constants read at an index which depends on one small variable only: the value in
    /// terms of that variable, as pieces which are constant or rise or fall with it
    fn tabulate(&mut self, st: &State, idx: Id, b: u64, t: &Ty, off: u64, size: u64) -> R<Option<Id>> {
        let w = t.bits();
        let Some(v) = self.small_var(idx) else { return Ok(None) };
        if w > 64 { return Ok(None); }
        let var = self.a.var_ids[v as usize];
        let vw = self.a.w(var);
        let dom = st.dom.get(&v).copied().unwrap_or([u64::MAX; 4]);
        let mut m = (*st.model).clone();
        m.resize(self.a.nvars as usize, 0);
        // (first, value at first, slope)
        let mut pieces: Vec<(u64, u64, Option<u64>)> = vec![];
        let mut last = (0u64, 0u64);
        let n = t.store_size();
        for x in 0..1u64 << vw {
            if dom[x as usize / 64] >> (x & 63) & 1 == 0 { continue; }
            m[v as usize] = x;
            let i = self.a.eval(idx, &m).u64();
            if off + i + n > size { return Ok(None); }
            let V::K(val) = self.load(st, b + i, t)? else { return Ok(None) };
            let fits = match pieces.last_mut() {
                None => false,
                Some((_, _, sl)) => {
                    let slope = if val == last.1 { 0 } else if val.wrapping_sub(last.1) & mask64(w) == x - last.0 { 1 } else if last.1.wrapping_sub(val) & mask64(w) == x - last.0 { u64::MAX } else { 2 };
                    if slope == 2 { false } else if sl.is_none() { *sl = Some(slope); true } else { *sl == Some(slope) }
                }
            };
            if !fits { pieces.push((x, val, None)); }
            last = (x, val);
        }
        if pieces.len() > 40 { return Ok(None); }
        let z = if w >= vw { self.a.zext(var, w) } else { self.a.extract(var, 0, w) };
        let mut acc: Option<(Id, u64)> = None;
        for (first, val, slope) in pieces.iter().rev() {
            let e = match slope {
                None | Some(0) => self.a.kc(w, *val),
                Some(1) => { let k = self.a.kc(w, val.wrapping_sub(*first) & mask64(w)); self.a.bin(Op::Add, z, k) }
                _ => { let k = self.a.kc(w, val.wrapping_add(*first) & mask64(w)); self.a.bin(Op::Sub, k, z) }
            };
            let r = match acc {
                None => e,
                // where the next piece begins
                Some((r, next)) => { let k = self.a.kc(vw, next); let c = self.a.bin(Op::Ult, var, k); self.a.ite(c, e, r) }
            };
            acc = Some((r, *first));
        }
        Ok(acc.map(|x| x.0))
    }
    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<Result<u8, Id>>> {
        self.with_obj(st, addr, n, |o, off| (0..n as usize).map(|i| { let s = o.symb(off + i); if s != 0 { Err(s) } else { Ok(o.byte(off + i)) } }).collect())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (data, sym) = self.with_obj(st, s, n, |o, off| {
            let n = n as usize; let e = (off + n).min(o.data.len());
            let mut d: Vec<u8> = if off < e { o.data[off..e].to_vec() } else { vec![] }; d.resize(n, 0);
            let sy = if o.any_sym(off, n) { let e = (off + n).min(o.sym.len()); let mut x = o.sym[off..e].to_vec(); x.resize(n, 0); Some(x) } else { None };
            (d, sy)
        })?;
        self.with_mut(st, d, n, |o, off| {
            let n = n as usize;
            o.grow(off + n);
            o.data[off..off + n].copy_from_slice(&data);
            match sym { Some(x) => { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } o.sym[off..off + n].copy_from_slice(&x); } None => if !o.sym.is_empty() { for x in &mut o.sym[off..off + n] { *x = 0; } } }
        })
    }

    // ---------- control
    /// effects of a block which only computes and stores and then goes on to another block
    fn arm(&mut self, st: &State, b: u32) -> Option<Arm> {
        let fr = st.frames.last().unwrap().clone();
        let blk = &fr.f.blocks[b as usize];
        let (mut from, mut succ) = (fr.block, b);
        let mut stores = vec![];
        let mut loc: HashMap<u32, V> = HashMap::new();
        macro_rules! op { ($o:expr) => { match $o { O::Reg(r) if loc.contains_key(r) => loc[r].clone(), o => self.op(st, o) } } }
        if blk.phis.is_empty() && blk.code.len() <= 8 {
            for ins in &blk.code {
                match ins {
                    I::Nop => {}
                    I::Gep { d, p, off, idx } if idx.is_empty() => { let v = op!(p); let v = self.bin(BinOp::Add, 64, &v, &V::K(*off as u64)); loc.insert(*d, v); }
                    I::Bin { op, ty: Ty::Int(w), d, a, b } if *w <= 64 => { let (x, y) = (op!(a), op!(b)); let r = self.bin(*op, *w, &x, &y); loc.insert(*d, r); }
                    I::Cast { op, from: from @ Ty::Int(_), to: to @ Ty::Int(_), d, a } => { let x = op!(a); let r = self.cast(*op, from, to, &x); loc.insert(*d, r); }
                    I::Store { ty: ty @ (Ty::Int(_) | Ty::Ptr), v, p } if ty.bits() <= 64 => { let V::K(a) = op!(p) else { return None }; let v = op!(v); stores.push((a, ty.clone(), v)); }
                    I::Br(t) => { from = b; succ = *t; break }
                    _ => return None,
                }
            }
        } else if blk.phis.is_empty() { return None; }
        if succ == b && blk.phis.is_empty() { return None; }
        let mut phis = vec![];
        for (d, inc, t) in &fr.f.blocks[succ as usize].phis {
            let o = &inc.iter().find(|(b, _)| *b == from)?.1;
            if matches!(o, O::Wide(_)) { return None; }
            let v = op!(o);
            phis.push((*d, t.clone(), v));
        }
        Some(Arm { succ, stores, phis })
    }
    /// joins the arms of a switch which have the same effects but for the values they store
    fn merge_arms(&mut self, st: &State, def: u32, cases: &[(u64, u32)], targets: Vec<(u32, Id)>, e: Id) -> Vec<Unit> {
        let mut units = vec![];
        let mut groups: Vec<(Vec<Id>, Vec<Option<u64>>, Vec<Arm>, Vec<u32>)> = vec![];
        for (b, q) in targets {
            if b == def { continue; }
            let Some(arm) = (if cases.len() >= 3 { self.arm(st, b) } else { None }) else { units.push(Unit::Block(b, q)); continue; };
            let mut of = cases.iter().filter(|c| c.1 == b);
            let case = of.next().map(|c| c.0); let case = if of.next().is_some() { None } else { case };
            let same = |x: &Arm| x.succ == arm.succ && x.stores.len() == arm.stores.len() && x.stores.iter().zip(&arm.stores).all(|(x, y)| x.0 == y.0 && x.1.bits() == y.1.bits() && (same_v(&x.2, &y.2) || matches!((&x.1, &y.1), (Ty::Int(_), Ty::Int(_)))))
                && x.phis.iter().zip(&arm.phis).all(|(x, y)| same_v(&x.2, &y.2) || matches!(&x.1, Ty::Int(w) if *w <= 64) && !matches!((&x.2, &y.2), (V::A(_), _) | (_, V::A(_))));
            match groups.iter_mut().find(|g| same(&g.2[0])) { Some(g) => { g.0.push(q); g.1.push(case); g.2.push(arm); g.3.push(b); } None => groups.push((vec![q], vec![case], vec![arm], vec![b])) }
        }
        for (qs, cs, arms, bs) in groups {
            if arms.len() == 1 { units.push(Unit::Block(bs[0], qs[0])); continue; }
            let w = self.a.w(e);
            let cond = self.one_of(e, w, cases.iter().filter(|c| bs.contains(&c.1)).map(|c| c.0).collect());
            let n = arms[0].stores.len();
            let mut stores = vec![]; let mut phis = vec![];
            for i in 0..n { let w = arms[0].stores[i].1.bits(); let v = self.merge_vals(&arms.iter().map(|a| a.stores[i].2.clone()).collect::<Vec<_>>(), &qs, &cs, e, w); stores.push((arms[0].stores[i].0, arms[0].stores[i].1.clone(), v)); }
            for i in 0..arms[0].phis.len() { let w = if let Ty::Int(w) = arms[0].phis[i].1 { w } else { 64 }; let v = self.merge_vals(&arms.iter().map(|a| a.phis[i].2.clone()).collect::<Vec<_>>(), &qs, &cs, e, w); phis.push((arms[0].phis[i].0, v)); }
            units.push(Unit::Merged { cond, succ: arms[0].succ, stores, phis });
        }
        units
    }
    /// one of the values, as ranges
    fn one_of(&mut self, e: Id, w: u32, mut cs: Vec<u64>) -> Id {
        cs.sort(); cs.dedup();
        let mut r = 0; let mut i = 0;
        while i < cs.len() {
            let mut j = i; while j + 1 < cs.len() && cs[j + 1] == cs[j] + 1 { j += 1; }
            let lo = self.a.kc(w, cs[i]);
            if j - i >= 2 { let n = self.a.kc(w, cs[j] - cs[i] + 1); let x = self.a.bin(Op::Sub, e, lo); let q = self.a.bin(Op::Ult, x, n); r = self.a.bin(Op::Or, r, q); }
            else { for c in &cs[i..=j] { let k = self.a.kc(w, *c); let q = self.a.bin(Op::Eq, e, k); r = self.a.bin(Op::Or, r, q); } }
            i = j + 1;
        }
        r
    }
    fn merge_vals(&mut self, vs: &[V], qs: &[Id], cs: &[Option<u64>], e: Id, w: u32) -> V {
        if vs.iter().all(|v| same_v(v, &vs[0])) { return vs[0].clone(); }
        // constants at a constant distance from the cases
        let m = mask64(w);
        let d: Vec<Option<u64>> = vs.iter().zip(cs).map(|(v, c)| match (v, c) { (V::K(k), Some(c)) => Some(k.wrapping_sub(*c) & m), _ => None }).collect();
        let ew = self.a.w(e);
        if w <= 64 && ew <= 64 && d[0].is_some() && d.iter().all(|x| *x == d[0]) {
            let x = if ew < w { self.a.zext(e, w) } else { self.a.extract(e, 0, w) };
            let k = self.a.kc(w, d[0].unwrap()); let r = self.a.bin(Op::Add, x, k);
            return self.norm(r);
        }
        let mut acc = self.ex(vs.last().unwrap(), w);
        for i in (0..vs.len() - 1).rev() { let v = self.ex(&vs[i], w); acc = self.a.ite(qs[i], v, acc); }
        self.norm(acc)
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap().clone();
        let from = fr.block;
        let blk = &fr.f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, inc, _) in &blk.phis {
                let o = &inc.iter().find(|(b, _)| *b == from).expect("phi edge").1;
                let v = match o { O::Wide(l) => { // width from sibling registers is unknown; keep limb width
                        let w = l.len() as u32 * 64; let id = self.a.k(w, Bv::from_limbs(w, l.clone())); V::E(id) } _ => self.op(st, o) };
                vals.push((*d, v));
            }
            drop(fr);
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vals { f.regs[d as usize] = v; }
            f.block = to; f.pc = 0;
        } else { drop(fr); let f = Rc::make_mut(st.frames.last_mut().unwrap()); f.block = to; f.pc = 0; }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let func = fr.f.clone();
        let ins = &func.blocks[fr.block as usize].code[fr.pc];
        if self.trace { eprintln!("  {} b{} {}: {:?}", demangle(&func.name), fr.block, fr.pc, ins); }
        macro_rules! next { () => { Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1 } }
        match ins {
            I::Bin { op, ty, d, a, b } => {
                let (x, y) = (self.opt(st, a, ty), self.opt(st, b, ty));
                let r = match ty {
                    Ty::Vec(_, et) => { let w = et.bits(); let (V::A(x), V::A(y)) = (x, y) else { panic!() }; let l: Vec<V> = (0..x.len()).map(|i| self.bin(*op, w, &x[i], &y[i])).collect(); V::A(Rc::new(l)) }
                    _ => {
                        let w = ty.bits();
                        // division by a symbolic zero is excluded by the checks rustc emits
                        self.bin(*op, w, &x, &y)
                    }
                };
                self.set(st, *d, r); next!();
            }
            I::ICmp { p, ty, d, a, b } => {
                let (x, y) = (self.opt(st, a, ty), self.opt(st, b, ty));
                let r = match ty {
                    Ty::Vec(_, et) => { let w = et.bits(); let (V::A(x), V::A(y)) = (x, y) else { panic!() }; let l: Vec<V> = (0..x.len()).map(|i| self.icmp(*p, w, &x[i], &y[i])).collect(); V::A(Rc::new(l)) }
                    _ => self.icmp(*p, ty.bits(), &x, &y),
                };
                self.set(st, *d, r); next!();
            }
            I::Cast { op, from, to, d, a } => {
                let x = self.opt(st, a, from);
                let r = self.cast(*op, from, to, &x);
                self.set(st, *d, r); next!();
            }
            I::Select { cty, ty, d, c, a, b } => {
                let cv = self.op(st, c); let (x, y) = (self.opt(st, a, ty), self.opt(st, b, ty));
                let r = if let Ty::Vec(..) = cty {
                    let (V::A(cl), V::A(x), V::A(y)) = (cv, x, y) else { panic!() };
                    let mut l = vec![]; for i in 0..x.len() { let v = match &cl[i] { V::K(k) => if *k & 1 == 1 { x[i].clone() } else { y[i].clone() }, V::E(e) => { let e = *e; self.ite(e, &x[i], &y[i], ty.field(0)) } _ => panic!() }; l.push(v); }
                    V::A(Rc::new(l))
                } else { match cv { V::K(k) => if k & 1 == 1 { x } else { y }, V::E(e) => self.ite(e, &x, &y, ty), _ => panic!() } };
                self.set(st, *d, r); next!();
            }
            I::Load { ty, d, p } => {
                let a = self.op(st, p);
                let r = match a { V::K(a) => self.load(st, a, ty)?, V::E(e) => self.load_sym(st, e, ty)?, _ => panic!() };
                self.set(st, *d, r); next!();
            }
            I::Store { ty, v, p } => {
                let a = self.op(st, p); let v = self.opt(st, v, ty);
                let a = self.concretize(st, &a, 64)?;
                self.store(st, a, ty, &v)?; next!();
            }
            I::Gep { d, p, off, idx } => {
                let mut v = self.op(st, p);
                let mut koff = *off as u64;
                let mut dynm: Vec<(Id, u64)> = vec![];
                for (o, bits, scale) in idx {
                    match self.op(st, o) { V::K(k) => koff = koff.wrapping_add((sx(k, *bits) as u64).wrapping_mul(*scale)), V::E(e) => { let e = if *bits < 64 { self.a.sext(e, 64) } else if *bits > 64 { self.a.extract(e, 0, 64) } else { e }; dynm.push((e, *scale)) } _ => panic!() }
                }
                v = self.bin(BinOp::Add, 64, &v, &V::K(koff));
                for (e, s) in dynm { let k = self.a.kc(64, s); let m = self.a.bin(Op::Mul, e, k); v = self.bin(BinOp::Add, 64, &v, &V::E(m)); }
                self.set(st, *d, v); next!();
            }
            I::Alloca { d, size, n } => {
                let n = self.op(st, n); let n = self.concretize(st, &n, 64)?;
                let a = self.alloc(st, size * n);
                let f = Rc::make_mut(st.frames.last_mut().unwrap()); f.allocas.push(a); f.regs[*d as usize] = V::K(a); f.pc += 1;
            }
            I::ExtractV { d, a, path } => { let mut v = self.op(st, a); for i in path { let V::A(l) = &v else { panic!("extractvalue") }; v = l[*i].clone(); } self.set(st, *d, v); next!(); }
            I::InsertV { d, a, v, path } => { let base = self.op(st, a); let nv = self.op(st, v); let r = insv(&base, path, nv); self.set(st, *d, r); next!(); }
            I::ExtractE { d, ty: _, a, i } => { let v = self.op(st, a); let i = self.op(st, i); let i = self.concretize(st, &i, 64)?; let V::A(l) = v else { panic!() }; let r = l[i as usize].clone(); self.set(st, *d, r); next!(); }
            I::InsertE { d, ty: _, a, v, i } => { let b = self.op(st, a); let v = self.op(st, v); let i = self.op(st, i); let i = self.concretize(st, &i, 64)?; let r = insv(&b, &[i as usize], v); self.set(st, *d, r); next!(); }
            I::Shuffle { d, n, a, b, m } => { let (V::A(x), V::A(y)) = (self.op(st, a), self.op(st, b)) else { panic!() }; let l: Vec<V> = m.iter().map(|k| if *k < 0 { x[0].clone() } else if (*k as u32) < *n { x[*k as usize].clone() } else { y[(*k as u32 - n) as usize].clone() }).collect(); self.set(st, *d, V::A(Rc::new(l))); next!(); }
            I::Rmw { op, ty, d, p, v } => {
                let a = self.op(st, p); let a = self.concretize(st, &a, 64)?; let v = self.opt(st, v, ty);
                let old = self.load(st, a, ty)?; let w = ty.bits();
                let nv = match op.as_str() { "xchg" => v, "add" => self.bin(BinOp::Add, w, &old, &v), "sub" => self.bin(BinOp::Sub, w, &old, &v), "and" => self.bin(BinOp::And, w, &old, &v), "or" => self.bin(BinOp::Or, w, &old, &v), "xor" => self.bin(BinOp::Xor, w, &old, &v), _ => return Err(Stop::Err(format!("atomicrmw {op}"))) };
                self.store(st, a, ty, &nv)?; if let Some(d) = d { self.set(st, *d, old); } next!();
            }
            I::CmpXchg { ty, d, p, c, n } => {
                let a = self.op(st, p); let a = self.concretize(st, &a, 64)?; let c = self.opt(st, c, ty); let n = self.opt(st, n, ty);
                let old = self.load(st, a, ty)?; let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let k = match &eq { V::K(k) => *k, _ => return Err(Stop::Err("symbolic cmpxchg".into())) };
                if k == 1 { self.store(st, a, ty, &n)?; }
                if let Some(d) = d { self.set(st, *d, V::A(Rc::new(vec![old, eq]))); } next!();
            }
            I::Br(b) => self.jump(st, *b),
            I::CBr(c, x, y) => { let c = self.op(st, c); let t = self.decide(st, &c)?; self.jump(st, if t { *x } else { *y }); }
            I::Switch { ty, v, def, cases } => {
                let v = self.opt(st, v, ty);
                match v {
                    V::K(k) => { let t = cases.iter().find(|(c, _)| *c == k).map(|c| c.1).unwrap_or(*def); self.jump(st, t); }
                    V::E(e) => {
                        let w = ty.bits();
                        // group by target; decide targets one by one
                        let mut targets: Vec<(u32, Id)> = vec![];
                        let mut sets: Vec<(u32, Vec<u64>)> = vec![];
                        for (c, b) in cases { match sets.iter_mut().find(|t| t.0 == *b) { Some(t) => t.1.push(*c), None => sets.push((*b, vec![*c])) } }
                        for (b, cs) in sets { let q = self.one_of(e, w, cs); targets.push((b, q)); }
                        let units = self.merge_arms(st, *def, cases, targets, e);
                        let mut taken = None;
                        for u in units {
                            let q = match &u { Unit::Block(_, q) => *q, Unit::Merged { cond, .. } => *cond };
                            let c = self.norm(q);
                            if self.decide(st, &c)? { taken = Some(u); break; }
                        }
                        let taken = match taken {
                            Some(Unit::Block(b, _)) => Some(b),
                            Some(Unit::Merged { succ, stores, phis, .. }) => {
                                for (a, t, v) in stores { self.store(st, a, &t, &v)?; }
                                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                                for (d, v) in phis { f.regs[d as usize] = v; }
                                f.block = succ; f.pc = 0;
                                return Ok(());
                            }
                            None => None,
                        };
                        self.jump(st, taken.unwrap_or(*def));
                    }
                    _ => panic!(),
                }
            }
            I::Ret(t, v) => {
                let v = match v { Some(v) => Some(self.opt(st, v, t)), None => None };
                let f = st.frames.pop().unwrap();
                for a in f.allocas.iter() { self.release(st, *a)?; }
                if st.frames.is_empty() { return Err(Stop::Done); }
                let ret = f.ret; let cont = f.cont;
                if let (Some(d), Some(v)) = (ret, v) { self.set(st, d, v); }
                match cont { Some(b) => self.jump(st, b), None => next!() }
            }
            I::Call { d, rty, f, args, argty, cont } => {
                let fi = match f {
                    Callee::Fun(f) => *f,
                    Callee::Ind(o) => { let a = self.op(st, o); let a = self.concretize(st, &a, 64)?; match self.m.addr_fn(a) { Some(f) => f, None => return Err(Stop::Err(format!("indirect call to {a:#x}"))) } }
                    Callee::Asm(t) => { if t.contains("\"\"") { if let Some(d) = d { let v = if args.is_empty() { V::K(0) } else { self.op(st, &args[0]) }; self.set(st, *d, v); } next!(); return Ok(()); } return Err(Stop::Err(format!("inline asm {t}"))); }
                };
                let it = self.intr[fi as usize];
                if it == Intr::None {
                    let func = self.m.func(fi).map_err(Stop::Err)?;
                    self.res.funcs.insert(fi);
                    let mut regs = vec![V::K(0); func.nregs as usize];
                    for (i, (o, t)) in args.iter().zip(argty).enumerate() { if i < func.nargs as usize { regs[i] = self.opt(st, o, t); } }
                    // the text of an error message about malformed identifiers: left blank if it is symbolic
                    if regs.len() > 2 && self.m.fns[fi as usize].name.ends_with("String15from_utf8_lossy") && st.frames.last().unwrap().f.name.contains("strict_encoding") {
                        if let V::K(p) = &regs[1] { let p = *p; let n = match regs[2] { V::K(n) => n, _ => 1 }; if n > 0 && self.read_bytes(st, p, n).map(|l| l.iter().any(|b| b.is_err())).unwrap_or(false) { regs[2] = V::K(0); } }
                    }
                    if st.frames.len() > 2000 { return Err(Stop::Panic("stack overflow (2000 frames)".into())); }
                    if st.frames.len() > 100_000 { return Err(Stop::Panic("stack overflow: more than 100000 nested calls".into())); }
                    st.frames.push(Rc::new(Frame { f: func, regs, block: 0, pc: 0, allocas: vec![], ret: *d, cont: *cont }));
                } else {
                    let vals: Vec<V> = args.iter().zip(argty).map(|(o, t)| self.opt(st, o, t)).collect();
                    let r = self.intrinsic(st, it, fi, &vals, argty, rty, *d)?;
                    if let Some(d) = d { self.set(st, *d, r); }
                    match cont { Some(b) => self.jump(st, *b), None => next!() }
                }
            }
            I::Unreachable => return Err(Stop::Err("reached an unreachable instruction".into())),
            I::Nop => next!(),
            I::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {s}"))),
        }
        Ok(())
    }

    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, x: &V) -> V {
        if let (Ty::Vec(_, f), Ty::Vec(_, t), V::A(l)) = (from, to, x) { if op != CastOp::Bitcast { let r: Vec<V> = l.iter().map(|v| self.cast(op, f, t, v)).collect(); return V::A(Rc::new(r)); } }
        match op {
            CastOp::Freeze => x.clone(),
            CastOp::Bitcast => { let b = self.to_bits(x, from); self.from_bits(&b, to) }
            CastOp::PtrToInt | CastOp::IntToPtr => { let (f, t) = (from.bits(), to.bits()); if f == t { x.clone() } else { let e = self.ex(x, f); let r = if t < f { self.a.extract(e, 0, t) } else { self.a.zext(e, t) }; self.norm(r) } }
            CastOp::Trunc => { let t = to.bits(); match x { V::K(k) => V::K(k & mask64(t)), V::E(e) => { let r = self.a.extract(*e, 0, t); self.norm(r) } _ => panic!() } }
            CastOp::ZExt => { let (f, t) = (from.bits(), to.bits()); match x { V::K(k) if t <= 64 => V::K(*k), _ => { let e = self.ex(x, f); let r = self.a.zext(e, t); self.norm(r) } } }
            CastOp::SExt => { let (f, t) = (from.bits(), to.bits()); match x { V::K(k) if t <= 64 => V::K(sx(*k, f) as u64 & mask64(t)), _ => { let e = self.ex(x, f); let r = self.a.sext(e, t); self.norm(r) } } }
        }
    }

    fn site(&self, st: &State, f: u32, args: &[V]) -> String {
        let mut loc = String::new();
        for a in args.iter().rev() {
            if let V::K(a) = a {
                let o = a >> SH;
                if o >= 1 && o <= self.m.globals.len() as u64 && a & 0xffff_ffff == 0 {
                    let d = self.m.global_data((o - 1) as u32);
                    if d.len() == 24 {
                        let p = u64::from_le_bytes(d[0..8].try_into().unwrap()); let len = u64::from_le_bytes(d[8..16].try_into().unwrap());
                        let (line, col) = (u32::from_le_bytes(d[16..20].try_into().unwrap()), u32::from_le_bytes(d[20..24].try_into().unwrap()));
                        let og = p >> SH;
                        if og >= 1 && og <= self.m.globals.len() as u64 { let s = self.m.global_data((og - 1) as u32); if len as usize <= s.len() { loc = format!("{}:{}:{}", String::from_utf8_lossy(&s[..len as usize]), line, col); break; } }
                    }
                }
            }
        }
        let caller = st.frames.iter().rev().map(|f| demangle(&f.f.name)).next().unwrap_or_default();
        format!("{} in {} at {}", demangle(&self.m.fns[f as usize].name), caller, loc)
    }

    fn do_alloc(&mut self, st: &mut State, size: &V) -> R<u64> {
        let sz = match size {
            V::K(k) => { if *k > st.alloc_cap { let m = st.model.clone(); self.violation(st, "alloc", 0, format!("allocation of {k} bytes exceeds the cap of {}", st.alloc_cap), &m); return Err(Stop::Rejected); } *k }
            V::E(e) => {
                let e = *e;
                if st.alloc_cap != u64::MAX {
                    let k = self.a.kc(64, st.alloc_cap); let c = self.a.bin(Op::Ult, k, e);
                    if let Some(m) = self.sat(st, c)? { self.violation(st, "alloc", 0, format!("allocation may exceed the cap of {}", st.alloc_cap), &m); let n = self.a.not(c);
                        match self.sat(st, n)? { Some(m) => { st.model = Rc::new(m); self.push_pc(st, n); } None => return Err(Stop::Rejected) } }
                }
                self.umax(st, e, 64)?
            }
            _ => panic!(),
        };
        if sz > 0x7fff_ffff { return Err(Stop::Err(format!("allocation of {sz} bytes"))); }
        Ok(self.alloc(st, sz))
    }

    fn fresh(&mut self, st: &mut State, w: u32, init: u64) -> Id {
        let id = self.a.var(w);
        let m = Rc::make_mut(&mut st.model); m.resize(self.a.nvars as usize, 0); let n = m.len(); m[n - 1] = init & mask64(w);
        id
    }

    fn intrinsic(&mut self, st: &mut State, it: Intr, f: u32, v: &[V], ty: &[Ty], rty: &Ty, _d: Option<u32>) -> R<V> {
        let k = |i: usize| -> R<u64> { match &v[i] { V::K(k) => Ok(*k), _ => Err(Stop::Err("symbolic argument of an intrinsic".into())) } };
        Ok(match it {
            Intr::SymVar => { let w = k(0)? as u32; let e = self.fresh(st, w, 0); st.inputs.push(Input::Sym(w, e)); let z = self.a.zext(e, 64); self.norm(z) }
            Intr::Choice => {
                let n = k(0)?;
                if n == 0 { return Err(Stop::Rejected); }
                // other alternatives continue after this instruction with their own value
                let d = _d;
                for i in (1..n).rev() { let mut o = st.clone(); o.inputs.push(Input::Choice(i)); if let Some(d) = d { self.set(&mut o, d, V::K(i)); } Rc::make_mut(o.frames.last_mut().unwrap()).pc += 1; self.res.stats.forks += 1; self.work.push(o); }
                st.inputs.push(Input::Choice(0));
                V::K(0)
            }
            Intr::Assume => { match &v[0] { V::K(k) => { if k & 1 == 0 { return Err(Stop::Rejected); } } V::E(e) => { let e = *e; let m = st.model.clone(); if self.a.eval_bool(e, &m) { self.push_pc(st, e); } else { match self.sat(st, e)? { Some(m) => { st.model = Rc::new(m); self.push_pc(st, e); } None => return Err(Stop::Rejected) } } } _ => panic!() } V::K(0) }
            Intr::Assert => {
                st.asserts += 1;
                let id = k(1)? as u32;
                st.trace.push((b'a', id));
                match &v[0] {
                    V::K(c) => if c & 1 == 0 { let m = st.model.clone(); self.violation(st, "assert", id, String::new(), &m); return Err(Stop::Rejected); },
                    V::E(e) => {
                        let e = *e; let n = self.a.not(e);
                        self.res.stats.assert_queries += 1;
                        if let Some(m) = self.sat_by(st, n, false)? {
                            self.violation(st, "assert", id, String::new(), &m);
                            match self.sat(st, e)? { Some(m) => { st.model = Rc::new(m); self.push_pc(st, e); } None => return Err(Stop::Rejected) }
                        } else { Rc::make_mut(&mut st.known).insert(e, 1); }
                    }
                    _ => panic!(),
                }
                V::K(0)
            }
            Intr::Cover => { let id = k(0)? as u32; st.trace.push((b'c', id)); V::K(0) }
            Intr::Config => V::K(self.cfg),
            Intr::AllowPanic => { st.allow_panic = k(0)? & 1 == 1; V::K(0) }
            Intr::AllocCap => { st.alloc_cap = k(0)?; V::K(0) }
            Intr::IsReplay => V::K(0),
            Intr::Concretize => { let w = ty[0].bits(); V::K(self.concretize(st, &v[0], w)?) }
            Intr::Reject => return Err(Stop::Rejected),
            Intr::Note => { let (p, n) = (k(0)?, k(1)?); let bs = self.read_bytes(st, p, n)?; let s: String = bs.iter().map(|b| b.as_ref().copied().unwrap_or(b'?') as char).collect(); st.notes.push((s, v[2].clone(), 64)); V::K(0) }
            Intr::ConstSha => { st.const_sha = k(0)? & 1 == 1; V::K(0) }
            Intr::Sha => { self.sha(st, k(0)?, k(1)?, k(2)?)?; V::K(0) }
            Intr::Malloc => V::K(self.do_alloc(st, &v[0])?),
            Intr::Calloc => { let s = self.bin(BinOp::Mul, 64, &v[0], &v[1]); V::K(self.do_alloc(st, &s)?) }
            Intr::RustAlloc | Intr::RustAllocZ => V::K(self.do_alloc(st, &v[0])?),
            Intr::RustDealloc | Intr::Free => { let p = k(0)?; if p != 0 { self.release(st, p)?; } V::K(0) }
            Intr::RustRealloc | Intr::Realloc => {
                let p = k(0)?;
                let ns = if it == Intr::RustRealloc { v[3].clone() } else { v[1].clone() };
                let np = self.do_alloc(st, &ns)?;
                if p != 0 {
                    let osz = self.with_obj(st, p, 0, |o, _| o.size)?; let nsz = self.with_obj(st, np, 0, |o, _| o.size)?;
                    let used = self.with_obj(st, p, 0, |o, _| o.data.len() as u64)?;
                    self.memcpy(st, np, p, osz.min(nsz).min(used))?; self.release(st, p)?;
                }
                V::K(np)
            }
            Intr::PosixMemalign => { let p = k(0)?; let a = self.do_alloc(st, &v[2])?; self.write_scalar(st, p, 64, &V::K(a))?; V::K(0) }
            Intr::NoAllocShim => V::K(0),
            Intr::Memcpy => { let n = self.concretize(st, &v[2], 64)?; if n > 0 { let d = self.concretize(st, &v[0], 64)?; let s = self.concretize(st, &v[1], 64)?; self.memcpy(st, d, s, n)?; } v[0].clone() }
            Intr::Memset => {
                let n = self.concretize(st, &v[2], 64)?; let d = self.concretize(st, &v[0], 64)?;
                let b: Result<u8, Id> = match &v[1] { V::K(k) => Ok(*k as u8), V::E(e) => { let x = self.a.extract(*e, 0, 8); match self.a.konst(x) { Some(k) => Ok(k.u64() as u8), None => Err(x) } } _ => panic!() };
                if n > 0 { self.with_mut(st, d, n, |o, off| { for i in 0..n as usize { o.set(off + i, b); } })?; }
                v[0].clone()
            }
            Intr::Bcmp | Intr::Memcmp => {
                let n = self.concretize(st, &v[2], 64)?; if n == 0 { return Ok(V::K(0)); }
                let p = self.concretize(st, &v[0], 64)?; let q = self.concretize(st, &v[1], 64)?;
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                if x.iter().chain(&y).all(|b| b.is_ok()) {
                    let c = x.iter().map(|b| *b.as_ref().ok().unwrap()).cmp(y.iter().map(|b| *b.as_ref().ok().unwrap()));
                    return Ok(V::K(match c { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1, _ => 0xffff_ffff }));
                }
                let mut r = self.a.kc(32, 0);
                let one = self.a.kc(32, 1); let m1 = self.a.kc(32, 0xffff_ffff);
                for i in (0..n as usize).rev() {
                    let a = match x[i] { Ok(b) => self.a.kc(8, b as u64), Err(e) => e }; let b = match y[i] { Ok(b) => self.a.kc(8, b as u64), Err(e) => e };
                    let eq = self.a.bin(Op::Eq, a, b);
                    let ne = if it == Intr::Bcmp { one } else { let lt = self.a.bin(Op::Ult, a, b); self.a.ite(lt, m1, one) };
                    r = self.a.ite(eq, r, ne);
                }
                self.norm(r)
            }
            Intr::Strlen => { let p = k(0)?; let mut n = 0; loop { match self.read_scalar(st, p + n, 8)? { V::K(0) => break, V::K(_) => n += 1, _ => return Err(Stop::Err("symbolic strlen".into())) } } V::K(n) }
            Intr::HashKeys => V::A(Rc::new(vec![V::K(0x0706050403020100), V::K(0x0f0e0d0c0b0a0908)])),
            Intr::Abort | Intr::Panic => { let s = self.site(st, f, v); return Err(Stop::Panic(s)); }
            Intr::Llvm => self.llvm(st, f, v, ty, rty)?,
            Intr::None => unreachable!(),
        })
    }

    fn llvm(&mut self, st: &mut State, f: u32, v: &[V], ty: &[Ty], rty: &Ty) -> R<V> {
        let name = self.m.fns[f as usize].name.clone();
        let n = &name["llvm.".len()..];
        let base: String = { // strip type suffixes
            let mut p: Vec<&str> = n.split('.').collect();
            while p.len() > 1 { let l = p[p.len() - 1]; let t = (l.starts_with('i') && l[1..].bytes().all(|b| b.is_ascii_digit())) || (l.starts_with('p') && l[1..].bytes().all(|b| b.is_ascii_digit())) || (l.starts_with('v') && l.len() > 2 && l.as_bytes()[1].is_ascii_digit()); if t { p.pop(); } else { break; } }
            p.join(".")
        };
        match base.as_str() {
            "assume" | "lifetime.start" | "lifetime.end" | "experimental.noalias.scope.decl" | "donothing" | "prefetch" | "dbg.value" | "dbg.declare" | "x86.sse2.pause" | "stackrestore" => return Ok(V::K(0)),
            "threadlocal.address" | "expect" | "expect.with.probability" | "launder.invariant.group" | "strip.invariant.group" | "ptrmask" if base != "ptrmask" => return Ok(v[0].clone()),
            "ptrmask" => return Ok(self.bin(BinOp::And, 64, &v[0], &v[1])),
            "is.constant" => return Ok(V::K(0)),
            "trap" | "ubsantrap" | "debugtrap" => { let s = self.site(st, f, v); return Err(Stop::Panic(s)); }
            _ => {}
        }
        // lane-wise for vectors
        if let (Ty::Vec(_, et), true) = (rty, !base.starts_with("vector.")) {
            let nl = rty.nfields(); let mut out = vec![];
            for i in 0..nl {
                let args: Vec<V> = v.iter().map(|x| if let V::A(l) = x { l[i].clone() } else { x.clone() }).collect();
                let tys: Vec<Ty> = ty.iter().map(|t| if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }).collect();
                out.push(self.llvm_scalar(st, &base, &args, &tys, et)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if let Some(op) = base.strip_prefix("vector.reduce.") {
            let V::A(l) = &v[0] else { panic!() }; let w = ty[0].field(0).bits();
            let mut acc = l[0].clone();
            for x in &l[1..] { acc = match op { "or" => self.bin(BinOp::Or, w, &acc, x), "and" => self.bin(BinOp::And, w, &acc, x), "add" => self.bin(BinOp::Add, w, &acc, x), "xor" => self.bin(BinOp::Xor, w, &acc, x), "umax" | "umin" | "smax" | "smin" => { let t = ty[0].field(0).clone(); self.llvm_scalar(st, op, &[acc, x.clone()], &[t.clone(), t.clone()], &t)? } _ => return Err(Stop::Err(format!("intrinsic {name}"))) }; }
            return Ok(acc);
        }
        self.llvm_scalar(st, &base, v, ty, rty)
    }
    fn llvm_scalar(&mut self, _st: &mut State, base: &str, v: &[V], ty: &[Ty], rty: &Ty) -> R<V> {
        let w = ty[0].bits();
        let pick = |s: &mut Self, p: Pred, a: &V, b: &V| -> V { let c = s.icmp(p, w, a, b); match c { V::K(1) => a.clone(), V::K(_) => b.clone(), V::E(e) => s.ite(e, a, b, &ty[0]), _ => panic!() } };
        Ok(match base {
            "umin" => pick(self, Pred::Ult, &v[0], &v[1]), "umax" => pick(self, Pred::Ugt, &v[0], &v[1]),
            "smin" => pick(self, Pred::Slt, &v[0], &v[1]), "smax" => pick(self, Pred::Sgt, &v[0], &v[1]),
            "abs" => { let z = V::K(0); let z = if w > 64 { V::E(self.a.kc(w, 0)) } else { z }; let n = self.bin(BinOp::Sub, w, &z, &v[0]); let c = self.icmp(Pred::Slt, w, &v[0], &z); match c { V::K(1) => n, V::K(_) => v[0].clone(), V::E(e) => self.ite(e, &n, &v[0], &ty[0]), _ => panic!() } }
            "uadd.sat" => { let s = self.bin(BinOp::Add, w, &v[0], &v[1]); let c = self.icmp(Pred::Ult, w, &s, &v[0]); let m = { let o = self.a.k(w, Bv::ones(w)); self.norm(o) }; match c { V::K(1) => m, V::K(_) => s, V::E(e) => self.ite(e, &m, &s, &ty[0]), _ => panic!() } }
            "usub.sat" => { let s = self.bin(BinOp::Sub, w, &v[0], &v[1]); let c = self.icmp(Pred::Ult, w, &v[0], &v[1]); let m = { let o = self.a.kc(w, 0); self.norm(o) }; match c { V::K(1) => m, V::K(_) => s, V::E(e) => self.ite(e, &m, &s, &ty[0]), _ => panic!() } }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let (sg, op) = (base.starts_with('s'), match &base[1..4] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul });
                let r = self.bin(op, w, &v[0], &v[1]);
                let ov = if !sg && op == BinOp::Add { self.icmp(Pred::Ult, w, &r, &v[0]) } else if !sg && op == BinOp::Sub { self.icmp(Pred::Ult, w, &v[0], &v[1]) } else {
                    let ww = if op == BinOp::Mul { w * 2 } else { w + 1 };
                    let (x, y) = (self.ex(&v[0], w), self.ex(&v[1], w));
                    let (x, y) = if sg { (self.a.sext(x, ww), self.a.sext(y, ww)) } else { (self.a.zext(x, ww), self.a.zext(y, ww)) };
                    let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, _ => Op::Mul };
                    let full = self.a.bin(o, x, y);
                    let rr = self.ex(&r, w); let back = if sg { self.a.sext(rr, ww) } else { self.a.zext(rr, ww) };
                    let eq = self.a.bin(Op::Eq, full, back); let n = self.a.not(eq); self.norm(n)
                };
                V::A(Rc::new(vec![r, ov]))
            }
            "bswap" => { let e = self.ex(&v[0], w); let mut acc: Option<Id> = None; let n = w / 8; for i in (0..n).rev() { let b = self.a.extract(e, i * 8, 8); acc = Some(match acc { None => b, Some(lo) => self.a.bin(Op::Concat, b, lo) }); } self.norm(acc.unwrap()) }
            "bitreverse" => { let e = self.ex(&v[0], w); let mut acc: Option<Id> = None; for i in (0..w).rev() { let b = self.a.extract(e, i, 1); acc = Some(match acc { None => b, Some(lo) => self.a.bin(Op::Concat, b, lo) }); } self.norm(acc.unwrap()) }
            "ctpop" => { if let V::K(k) = v[0] { return Ok(V::K(k.count_ones() as u64)); } let e = self.ex(&v[0], w); let mut acc = self.a.kc(w, 0); for i in 0..w { let b = self.a.extract(e, i, 1); let z = self.a.zext(b, w); acc = self.a.bin(Op::Add, acc, z); } self.norm(acc) }
            "ctlz" => { if let V::K(k) = v[0] { return Ok(V::K((k.leading_zeros() - (64 - w)) as u64)); } let e = self.ex(&v[0], w); let mut acc = self.a.kc(w, w as u64); for i in 0..w { let b = self.a.extract(e, i, 1); let k = self.a.kc(w, (w - 1 - i) as u64); acc = self.a.ite(b, k, acc); } self.norm(acc) }
            "cttz" => { if let V::K(k) = v[0] { return Ok(V::K(if k == 0 { w as u64 } else { k.trailing_zeros() as u64 })); } let e = self.ex(&v[0], w); let mut acc = self.a.kc(w, w as u64); for i in (0..w).rev() { let b = self.a.extract(e, i, 1); let k = self.a.kc(w, i as u64); acc = self.a.ite(b, k, acc); } self.norm(acc) }
            "fshl" | "fshr" => {
                let wk = if w > 64 { V::E(self.a.kc(w, w as u64)) } else { V::K(w as u64) };
                let s = self.bin(BinOp::URem, w, &v[2], &wk);
                let inv = self.bin(BinOp::Sub, w, &wk, &s);
                let (hi, lo) = if base == "fshl" { (self.bin(BinOp::Shl, w, &v[0], &s), self.bin(BinOp::LShr, w, &v[1], &inv)) } else { (self.bin(BinOp::Shl, w, &v[0], &inv), self.bin(BinOp::LShr, w, &v[1], &s)) };
                self.bin(BinOp::Or, w, &hi, &lo)
            }
            "scmp" | "ucmp" => {
                let rw = rty.bits(); let (lt, gt) = if base == "scmp" { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let l = self.icmp(lt, w, &v[0], &v[1]); let g = self.icmp(gt, w, &v[0], &v[1]);
                let (le, ge) = (self.ex(&l, 1), self.ex(&g, 1));
                let (m1, one, z) = (self.a.kc(rw, u64::MAX), self.a.kc(rw, 1), self.a.kc(rw, 0));
                let x = self.a.ite(ge, one, z); let r = self.a.ite(le, m1, x); self.norm(r)
            }
            _ => return Err(Stop::Err(format!("intrinsic {base}"))),
        })
    }

    // ---------- SHA-256 compression as a collision-free uninterpreted function (concrete inputs are computed)
    fn sha(&mut self, st: &mut State, state: u64, blocks: u64, n: u64) -> R<()> {
        // the state is written once at the end: a fork executes the whole call again
        let mut cur: Vec<Id> = vec![];
        for i in 0..8 { let v = self.read_scalar(st, state + 4 * i, 32)?; let e = self.ex(&v, 32); cur.push(e); }
        for b in 0..n {
            let mut inp: Vec<Id> = cur.clone();
            for i in 0..16 { let v = self.read_scalar(st, blocks + 64 * b + 4 * i, 32)?; let e = self.ex(&v, 32); inp.push(e); }
            if let Some((_, o)) = st.shas.iter().find(|(i, _)| **i == inp).cloned() { cur = (*o).clone(); continue; }
            let conc: Option<Vec<u32>> = inp.iter().map(|e| self.a.konst(*e).map(|k| k.u64() as u32)).collect();
            if st.const_sha {
                if conc.is_none() { st.sha_sym = true; }
                let mut found = None;
                for (pi, po) in st.shas.clone().iter() {
                    if conc.is_some() && pi.iter().all(|e| self.a.is_const(*e)) { continue; }
                    let mut ein = 1; for (x, y) in inp.iter().zip(pi.iter()) { let q = self.a.bin(Op::Eq, *x, *y); ein = self.a.bin(Op::And, ein, q); if ein == 0 { break; } }
                    let v = self.norm(ein);
                    if self.decide(st, &v)? { found = Some((**po).clone()); break; }
                }
                cur = match found { Some(o) => o, None => {
                    let model = st.model.clone();
                    let cv: Vec<u32> = inp.iter().map(|e| self.a.eval(*e, &model).u64() as u32).collect();
                    let mut h: [u32; 8] = cv[..8].try_into().unwrap(); let blk: [u32; 16] = cv[8..].try_into().unwrap();
                    sha_compress(&mut h, &blk);
                    loop {
                        let w = self.a.kc(32, h[0] as u64);
                        if st.shas.iter().all(|(_, o)| o[0] != w) { break; }
                        h[0] = h[0].wrapping_add(1);
                    }
                    h.iter().map(|x| self.a.kc(32, *x as u64)).collect()
                } };
                Rc::make_mut(&mut st.shas).push((Rc::new(inp), Rc::new(cur.clone())));
                continue;
            }
            let out: Vec<Id> = if let Some(c) = &conc {
                let mut h: [u32; 8] = c[..8].try_into().unwrap(); let blk: [u32; 16] = c[8..].try_into().unwrap();
                sha_compress(&mut h, &blk);
                h.iter().map(|x| self.a.kc(32, *x as u64)).collect()
            } else {
                st.sha_sym = true;
                // model values: real compression of the model's inputs
                let model = st.model.clone();
                let cv: Vec<u32> = inp.iter().map(|e| self.a.eval(*e, &model).u64() as u32).collect();
                let mut h: [u32; 8] = cv[..8].try_into().unwrap(); let blk: [u32; 16] = cv[8..].try_into().unwrap();
                sha_compress(&mut h, &blk);
                (0..8).map(|i| self.fresh(st, 32, h[i] as u64)).collect()
            };
            let prev = st.shas.clone();
            for (pi, po) in prev.iter() {
                let pconc = pi.iter().all(|e| self.a.is_const(*e));
                if conc.is_some() && pconc { continue; }
                let mut ein = 1; for (x, y) in inp.iter().zip(pi.iter()) { let q = self.a.bin(Op::Eq, *x, *y); ein = self.a.bin(Op::And, ein, q); if ein == 0 { break; } }
                // different inputs already differ in the first word of the digest; equal ones agree in all of it
                let eq0 = self.a.bin(Op::Eq, out[0], po[0]);
                let mut c = self.a.bin(Op::Eq, ein, eq0);
                if ein != 0 {
                    let mut rest = 1; for (x, y) in out.iter().zip(po.iter()).skip(1) { let q = self.a.bin(Op::Eq, *x, *y); rest = self.a.bin(Op::And, rest, q); }
                    let nein = self.a.bin(Op::Xor, ein, 1);
                    let imp = self.a.bin(Op::Or, nein, rest);
                    c = self.a.bin(Op::And, c, imp);
                }
                let model = st.model.clone();
                if !self.a.eval_bool(c, &model) { match self.sat(st, c)? { Some(m) => st.model = Rc::new(m), None => return Err(Stop::Rejected) } }
                self.push_pc(st, c);
            }
            Rc::make_mut(&mut st.shas).push((Rc::new(inp), Rc::new(out.clone())));
            cur = out;
        }
        for i in 0..8 { let v = self.norm(cur[i]); self.write_scalar(st, state + 4 * i as u64, 32, &v)?; }
        Ok(())
    }
}

fn insv(base: &V, path: &[usize], v: V) -> V {
    if path.is_empty() { return v; }
    let V::A(l) = base else { panic!("insertvalue") };
    let mut l = (**l).clone();
    l[path[0]] = insv(&l[path[0]], &path[1..], v);
    V::A(Rc::new(l))
}

const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
/// `blk` holds the 64 message bytes as little-endian words, as they lie in memory
fn sha_compress(h: &mut [u32; 8], blk: &[u32; 16]) {
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = blk[i].swap_bytes(); }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
}
#[allow(dead_code)] fn _unused() { let _ = bv_bin; let _: Option<BTreeMap<u8, u8>> = None; }
