//! Text LLVM-IR reader (whole-program module produced by rustc with fat LTO). Function bodies are parsed lazily.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Float(u32), Vec(u32, Box<Ty>), Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Other }

impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, Ty::Vec(n, t) => n * t.bits(), _ => panic!("bits of {self:?}") } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => if *w <= 8 { 1 } else if *w <= 16 { 2 } else if *w <= 32 { 4 } else if *w <= 64 { 8 } else { 16 },
            Ty::Ptr => 8, Ty::Float(w) => (*w as u64 / 8).min(16),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8, Ty::Ptr => 8, Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => { let mut o = 0; for t in f { if !packed { o = up(o, t.align()); } o += t.size(); } if !packed { o = up(o, self.align()); } o }
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 { up(self.store_size(), self.align()) }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            Ty::Struct(f, packed) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !packed { o = up(o, t.align()); } if k == i { return o; } o += t.size(); } panic!() }
            _ => panic!("field_off of {self:?}"),
        }
    }
    pub fn field(&self, i: usize) -> &Ty { match self { Ty::Arr(_, t) | Ty::Vec(_, t) => t, Ty::Struct(f, _) => &f[i], _ => panic!("field of {self:?}") } }
    pub fn nfields(&self) -> usize { match self { Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, Ty::Struct(f, _) => f.len(), _ => 0 } }
}
pub fn up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

#[derive(Clone, Debug, PartialEq)]
pub enum O { Reg(u32), K(u64), Wide(Vec<u64>), Agg(Vec<O>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, Freeze }

#[derive(Clone, Debug)]
pub enum Callee { Fun(u32), Ind(O), Asm(String) }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, ty: Ty, d: u32, a: O, b: O },
    ICmp { p: Pred, ty: Ty, d: u32, a: O, b: O },
    Cast { op: CastOp, from: Ty, to: Ty, d: u32, a: O },
    Select { cty: Ty, ty: Ty, d: u32, c: O, a: O, b: O },
    Load { ty: Ty, d: u32, p: O },
    Store { ty: Ty, v: O, p: O },
    Gep { d: u32, p: O, off: i64, idx: Vec<(O, u32, u64)> },
    Alloca { d: u32, size: u64, n: O },
    Call { d: Option<u32>, rty: Ty, f: Callee, args: Vec<O>, argty: Vec<Ty>, cont: Option<u32> },
    ExtractV { d: u32, a: O, path: Vec<usize> },
    InsertV { d: u32, a: O, v: O, path: Vec<usize> },
    ExtractE { d: u32, ty: Ty, a: O, i: O },
    InsertE { d: u32, ty: Ty, a: O, v: O, i: O },
    Shuffle { d: u32, n: u32, a: O, b: O, m: Vec<i64> },
    Rmw { op: String, ty: Ty, d: Option<u32>, p: O, v: O },
    CmpXchg { ty: Ty, d: Option<u32>, p: O, c: O, n: O },
    Br(u32),
    CBr(O, u32, u32),
    Switch { ty: Ty, v: O, def: u32, cases: Vec<(u64, u32)> },
    Ret(Ty, Option<O>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, O)>, Ty)>, pub code: Vec<I> }
#[derive(Debug)]
pub struct Func { pub idx: u32, pub name: String, pub nregs: u32, pub nargs: u32, pub blocks: Vec<Block> }

pub struct FnDecl { pub name: String, pub pretty: String, pub body: Option<(usize, usize)>, pub header: String, pub noreturn: bool, pub parsed: OnceLock<Result<Arc<Func>, String>> }
pub struct Global { pub name: String, pub text: String, pub constant: bool, pub size: u64, pub data: OnceLock<Vec<u8>> }

pub struct Module {
    pub lines: Vec<String>,
    pub fns: Vec<FnDecl>,
    pub fn_ix: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gl_ix: HashMap<String, u32>,
    pub named_tys: HashMap<String, String>,
    pub aliases: HashMap<String, String>,
}
/// objects: 1..=nglobals are globals, then functions, then per-state objects
pub const SH: u32 = 32;

impl Module {
    pub fn heap0(&self) -> u64 { 1 + self.globals.len() as u64 + self.fns.len() as u64 }
    pub fn fn_addr(&self, f: u32) -> u64 { (1 + self.globals.len() as u64 + f as u64) << SH }
    pub fn addr_fn(&self, a: u64) -> Option<u32> {
        let o = a >> SH; let g = 1 + self.globals.len() as u64;
        if a & 0xffff_ffff == 0 && o >= g && o < g + self.fns.len() as u64 { Some((o - g) as u32) } else { None }
    }
    pub fn gl_addr(&self, g: u32) -> u64 { (1 + g as u64) << SH }
    pub fn sym_addr(&self, name: &str) -> u64 {
        if let Some(g) = self.gl_ix.get(name) { return self.gl_addr(*g); }
        if let Some(f) = self.fn_ix.get(name) { return self.fn_addr(*f); }
        if let Some(a) = self.aliases.get(name) { return self.sym_addr(a); }
        panic!("unknown symbol {name}")
    }

    pub fn load(text: &str) -> Module {
        let mut m = Module { lines: vec![], fns: vec![], fn_ix: HashMap::new(), globals: vec![], gl_ix: HashMap::new(), named_tys: HashMap::new(), aliases: HashMap::new() };
        let mut noret_groups: Vec<String> = vec![];
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let mut p = P::new(&l[at..], &m);
                let name = p.symname();
                let h = i;
                let body = if l.starts_with("define ") {
                    let s = i + 1;
                    while lines[i] != "}" { i += 1; }
                    Some((s, i))
                } else { None };
                m.fn_ix.insert(name.clone(), m.fns.len() as u32);
                let mut pretty = String::new();
                { let mut k = h; while k > 0 && lines[k - 1].starts_with("; ") { k -= 1; if !lines[k].starts_with("; Function Attrs") { pretty = lines[k][2..].to_string(); } } }
                m.fns.push(FnDecl { name, pretty, body, header: strip_md(l).to_string(), noreturn: false, parsed: OnceLock::new() });
            } else if l.starts_with('@') {
                let p0 = { let mut p = P::new(l, &m); let n = p.symname(); (n, p.i) };
                let rest = l[p0.1..].trim_start().trim_start_matches('=').trim_start().to_string();
                if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ") {
                    let k = rest.rfind('@').unwrap(); let mut p = P::new(&rest[k..], &m); let t = p.symname();
                    m.aliases.insert(p0.0, t);
                } else {
                    m.gl_ix.insert(p0.0.clone(), m.globals.len() as u32);
                    m.globals.push(Global { name: p0.0, text: rest, constant: false, size: 0, data: OnceLock::new() });
                }
            } else if l.starts_with('%') {
                if let Some(k) = l.find(" = type ") { m.named_tys.insert(l[..k].to_string(), l[k + 8..].to_string()); }
            } else if l.starts_with("attributes #") {
                if l.contains(" noreturn ") { let k = l.find(" = ").unwrap(); noret_groups.push(l["attributes ".len()..k].to_string()); }
            }
            i += 1;
        }
        let ng: std::collections::HashSet<String> = noret_groups.into_iter().collect();
        for f in m.fns.iter_mut() {
            f.noreturn = f.header.split(' ').any(|t| t == "noreturn" || ng.contains(t.trim_end_matches('{')));
        }
        m.lines = lines.iter().map(|s| s.to_string()).collect();
        // global sizes
        for g in 0..m.globals.len() {
            let (c, sz) = { let gl = &m.globals[g]; let (c, t) = split_global(&gl.text); let mut p = P::new(t, &m); let ty = p.ty(); (c, ty.size()) };
            m.globals[g].constant = c; m.globals[g].size = sz;
        }
        m
    }

    pub fn global_data(&self, g: u32) -> &[u8] {
        let gl = &self.globals[g as usize];
        gl.data.get_or_init(|| {
            let (_, t) = split_global(&gl.text);
            let mut p = P::new(t, self);
            let ty = p.ty();
            let mut out = vec![0u8; ty.size() as usize];
            p.ws();
            if p.eof() || p.peek() == ',' { return out; }
            let v = p.val(&ty, &mut Names::none());
            fill(&mut out, 0, &ty, &v);
            out
        })
    }

    pub fn func(&self, f: u32) -> Result<Arc<Func>, String> {
        let d = &self.fns[f as usize];
        d.parsed.get_or_init(|| {
            let (s, e) = d.body.ok_or_else(|| format!("no body for {}", d.name))?;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.parse_func(f, s, e)));
            match r { Ok(x) => Ok(Arc::new(x)), Err(p) => Err(format!("parse failure in {}: {}", d.name, p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
        }).clone()
    }

    fn parse_func(&self, idx: u32, s: usize, e: usize) -> Func {
        let d = &self.fns[idx as usize];
        let mut names = Names { regs: HashMap::new(), blocks: HashMap::new(), allow: true };
        // arguments
        let at = d.header.find('@').unwrap();
        let mut p = P::new(&d.header[at..], self);
        p.symname();
        p.expect('(');
        let mut nargs = 0; let mut unnamed = 0u32;
        loop {
            p.ws();
            if p.eat(')') { break; }
            if p.eat(',') { continue; }
            if p.lit("...") { continue; }
            let _t = p.ty();
            p.attrs();
            p.ws();
            if p.peek() == '%' { let n = p.local(); names.reg(&n); } else { names.reg(&format!("{unnamed}")); }
            if names.regs.contains_key(&format!("{unnamed}")) { unnamed += 1; }
            nargs += 1;
        }
        // pass 1: logical lines + labels
        let mut items: Vec<(bool, String)> = vec![];
        let mut i = s;
        let mut first = true;
        while i < e {
            let l = &self.lines[i];
            if l.is_empty() || l.starts_with(';') { i += 1; continue; }
            if !l.starts_with(' ') {
                let lab = label_of(l);
                items.push((true, lab)); first = false; i += 1; continue;
            }
            if first { items.push((true, format!("{unnamed}"))); first = false; }
            let mut t = strip_md(l).to_string();
            let tt = t.trim_start();
            if tt.starts_with("switch ") { while !t.trim_end().ends_with(']') { i += 1; t.push(' '); t.push_str(strip_md(&self.lines[i])); } }
            else if tt.contains(" = landingpad") || tt.starts_with("landingpad") { while i + 1 < e && self.lines[i + 1].starts_with("          ") { i += 1; } }
            else if tt.starts_with("invoke ") || tt.contains(" = invoke ") { i += 1; t.push(' '); t.push_str(strip_md(&self.lines[i])); }
            items.push((false, t));
            i += 1;
        }
        for (isl, t) in &items { if *isl { let n = names.blocks.len() as u32; names.blocks.insert(t.clone(), n); } }
        let mut blocks: Vec<Block> = vec![];
        for (isl, t) in &items {
            if *isl { blocks.push(Block { phis: vec![], code: vec![] }); continue; }
            let b = blocks.last_mut().unwrap();
            if t.trim_start().starts_with("#dbg") { continue; }
            let mut p = P::new(t, self);
            p.inst(&mut names, b);
        }
        Func { idx, name: d.name.clone(), nregs: names.regs.len() as u32, nargs, blocks }
    }
}

fn label_of(l: &str) -> String {
    let l = l.trim();
    if l.starts_with('"') { let k = l[1..].find('"').unwrap(); return l[1..1 + k].to_string(); }
    l[..l.find(':').unwrap()].to_string()
}

/// drop trailing metadata attachments and comments
fn strip_md(l: &str) -> &str {
    // metadata attachments look like ", !name !123"; strings in instructions do not contain ", !"
    if let Some(k) = l.find(", !") { return &l[..k]; }
    l
}
fn split_global(t: &str) -> (bool, &str) {
    let find = |w: &str| -> Option<usize> { let mut s = 0; while let Some(k) = t[s..].find(w) { let k = s + k; let pre = k == 0 || t.as_bytes()[k - 1] == b' '; if pre { return Some(k); } s = k + 1; } None };
    let c = find("constant "); let g = find("global ");
    match (c, g) {
        (Some(c), Some(g)) if g < c => (false, &t[g + 7..]),
        (Some(c), _) => (true, &t[c + 9..]),
        (None, Some(g)) => (false, &t[g + 7..]),
        _ => panic!("global without kind: {t}"),
    }
}
fn fill(out: &mut [u8], off: u64, ty: &Ty, v: &O) {
    match v {
        O::K(k) => match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => { assert!(*k == 0); }
            _ => { let n = ty.store_size().min(8); for i in 0..n { out[(off + i) as usize] = (k >> (8 * i)) as u8; } }
        },
        O::Wide(l) => { let n = ty.store_size(); for i in 0..n { out[(off + i) as usize] = (l.get((i / 8) as usize).copied().unwrap_or(0) >> (8 * (i % 8))) as u8; } }
        O::Agg(vs) => for (i, x) in vs.iter().enumerate() { fill(out, off + ty.field_off(i), ty.field(i), x); },
        O::Reg(_) => panic!(),
    }
}

pub struct Names { regs: HashMap<String, u32>, blocks: HashMap<String, u32>, allow: bool }
impl Names {
    fn none() -> Names { Names { regs: HashMap::new(), blocks: HashMap::new(), allow: false } }
    fn reg(&mut self, n: &str) -> u32 { assert!(self.allow); if let Some(i) = self.regs.get(n) { return *i; } let i = self.regs.len() as u32; self.regs.insert(n.to_string(), i); i }
    fn block(&self, n: &str) -> u32 { *self.blocks.get(n).unwrap_or_else(|| panic!("no block {n}")) }
}

struct P<'a> { s: &'a str, i: usize, m: &'a Module }
impl<'a> P<'a> {
    fn new(s: &'a str, m: &'a Module) -> P<'a> { P { s, i: 0, m } }
    fn eof(&self) -> bool { self.i >= self.s.len() }
    fn peek(&self) -> char { self.s[self.i..].chars().next().unwrap_or('\0') }
    fn ws(&mut self) { let b = self.s.as_bytes(); while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\t') { self.i += 1; } }
    fn eat(&mut self, c: char) -> bool { self.ws(); if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: char) { if !self.eat(c) { panic!("expected '{c}' at `{}` in `{}`", &self.s[self.i..].chars().take(60).collect::<String>(), self.s.chars().take(200).collect::<String>()); } }
    fn lit(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t) { self.i += t.len(); true } else { false } }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.s.as_bytes(); let st = self.i;
        while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || b[self.i] == b'_' || b[self.i] == b'.' || b[self.i] == b'-' || b[self.i] == b'$') { self.i += 1; }
        &self.s[st..self.i]
    }
    fn peek_word(&mut self) -> &'a str { let i = self.i; let w = self.word(); self.i = i; w }
    fn symname(&mut self) -> String {
        self.ws(); assert!(self.peek() == '@'); self.i += 1;
        if self.peek() == '"' { let k = self.s[self.i + 1..].find('"').unwrap(); let r = self.s[self.i + 1..self.i + 1 + k].to_string(); self.i += k + 2; r } else { self.word().to_string() }
    }
    fn local(&mut self) -> String {
        self.ws(); assert!(self.peek() == '%', "local at {}", &self.s[self.i..]); self.i += 1;
        if self.peek() == '"' { let k = self.s[self.i + 1..].find('"').unwrap(); let r = self.s[self.i + 1..self.i + 1 + k].to_string(); self.i += k + 2; r } else { self.word().to_string() }
    }
    fn parens(&mut self) { // balanced skip, cursor at '('
        let b = self.s.as_bytes(); let mut d = 0; let mut instr = false;
        while self.i < b.len() { match b[self.i] { b'"' => instr = !instr, b'(' | b'[' if !instr => d += 1, b')' | b']' if !instr => { d -= 1; if d == 0 { self.i += 1; return; } } _ => {} } self.i += 1; }
    }
    fn is_ty_start(&mut self) -> bool {
        self.ws();
        match self.peek() { '{' | '<' | '[' | '%' => true, c if c.is_ascii_alphabetic() => { let w = self.peek_word(); matches!(w, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())) } _ => false }
    }
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == '"' { let k = self.s[self.i + 1..].find('"').unwrap(); self.i += k + 2; if self.eat('=') { let k = self.s[self.i + 1..].find('"').unwrap(); self.i += k + 2; } continue; }
            if c == '#' { self.i += 1; self.word(); continue; }
            if !c.is_ascii_alphabetic() { return; }
            let w = self.peek_word();
            if matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "trunc" | "zext" | "sext" | "none" | "c" | "splat" | "asm" | "icmp" | "select" | "shl" | "lshr" | "to" | "unwind" | "within") { return; }
            if self.is_ty_start() { return; }
            self.word();
            if w == "align" { self.ws(); if self.peek() != '(' { self.word(); } else { self.parens(); } continue; }
            if self.peek() == '(' { self.parens(); }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        let t = match self.peek() {
            '{' => { self.i += 1; let mut f = vec![]; loop { if self.eat('}') { break; } f.push(self.ty()); self.eat(','); } Ty::Struct(f, false) }
            '[' => { self.i += 1; let n: u64 = self.word().parse().unwrap(); self.ws(); assert_eq!(self.word(), "x"); let t = self.ty(); self.expect(']'); Ty::Arr(n, Box::new(t)) }
            '<' => {
                self.i += 1;
                if self.eat('{') { let mut f = vec![]; loop { if self.eat('}') { break; } f.push(self.ty()); self.eat(','); } self.expect('>'); Ty::Struct(f, true) }
                else { let n: u32 = self.word().parse().unwrap(); assert_eq!(self.word(), "x"); let t = self.ty(); self.expect('>'); Ty::Vec(n, Box::new(t)) }
            }
            '%' => { let n = self.local(); let key = format!("%{n}"); let d = self.m.named_tys.get(&key).cloned().unwrap_or("opaque".into()); if d == "opaque" { Ty::Other } else { let mut p = P::new(&d, self.m); p.ty() } }
            _ => { let w = self.word(); match w { "void" => Ty::Void, "ptr" => { if self.lit("addrspace(") { self.word(); self.expect(')'); } Ty::Ptr } "float" => Ty::Float(32), "double" => Ty::Float(64), "half" | "bfloat" => Ty::Float(16), "fp128" => Ty::Float(128), "x86_fp80" => Ty::Float(80), "label" | "metadata" | "token" | "opaque" => Ty::Other,
                w if w.starts_with('i') && w.len() > 1 => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w} in {}", self.s))), _ => panic!("bad type `{w}` in `{}`", self.s) } }
        };
        t
    }
    fn int(&self, w: &str, bits: u32) -> O {
        let neg = w.starts_with('-'); let dgt = w.trim_start_matches('-');
        let mut l = vec![0u64; ((bits.max(1) + 63) / 64) as usize];
        for c in dgt.bytes() { assert!(c.is_ascii_digit(), "int `{w}` in `{}`", self.s); let mut carry = (c - b'0') as u128; for x in l.iter_mut() { let t = *x as u128 * 10 + carry; *x = t as u64; carry = t >> 64; } }
        if neg { let mut c = true; for x in l.iter_mut() { let (v, o) = (!*x).overflowing_add(c as u64); *x = v; c = o; } }
        if bits <= 64 { O::K(l[0] & crate::expr::mask64(bits)) } else { let k = l.len(); if bits % 64 != 0 { l[k - 1] &= crate::expr::mask64(bits % 64); } if l[1..].iter().all(|x| *x == 0) { O::Wide(l) } else { O::Wide(l) } }
    }
    fn zero(ty: &Ty) -> O {
        match ty { Ty::Vec(n, t) => O::Agg(vec![Self::zero(t); *n as usize]), Ty::Arr(n, t) => if *n > 4096 { O::K(0) } else { O::Agg(vec![Self::zero(t); *n as usize]) }, Ty::Struct(f, _) => O::Agg(f.iter().map(Self::zero).collect()),
            Ty::Int(w) | Ty::Float(w) if *w > 64 => O::Wide(vec![0; ((*w + 63) / 64) as usize]), _ => O::K(0) }
    }
    fn val(&mut self, ty: &Ty, n: &mut Names) -> O {
        self.ws();
        match self.peek() {
            '%' => { let l = self.local(); O::Reg(n.reg(&l)) }
            '@' => { let s = self.symname(); O::K(self.m.sym_addr(&s)) }
            '{' | '[' | '<' => {
                let open = self.peek(); self.i += 1;
                let packed = open == '<' && self.eat('{');
                let close = match open { '{' => '}', '[' => ']', _ => '>' };
                let mut v = vec![];
                loop {
                    self.ws();
                    if packed { if self.eat('}') { self.expect('>'); break; } } else if self.eat(close) { break; }
                    if self.eat(',') { continue; }
                    let t = self.ty(); v.push(self.val(&t, n));
                }
                O::Agg(v)
            }
            'c' if self.s[self.i..].starts_with("c\"") => {
                self.i += 2; let b = self.s.as_bytes(); let mut v = vec![];
                while b[self.i] != b'"' {
                    if b[self.i] == b'\\' { if b[self.i + 1] == b'\\' { v.push(O::K(b'\\' as u64)); self.i += 2; } else { v.push(O::K(u64::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap())); self.i += 3; } }
                    else { v.push(O::K(b[self.i] as u64)); self.i += 1; }
                }
                self.i += 1; O::Agg(v)
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => O::K(1), "false" => O::K(0), "null" | "none" => O::K(0),
                    "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
                    "splat" => { self.expect('('); let t = self.ty(); let v = self.val(&t, n); self.expect(')'); O::Agg(vec![v; ty.nfields()]) }
                    "getelementptr" => {
                        loop { self.ws(); if self.peek() == '(' { break; } let w = self.word(); if w == "inrange" { self.ws(); self.parens(); } }
                        self.expect('('); let t = self.ty(); self.expect(','); let bt = self.ty(); let base = self.val(&bt, n);
                        let mut idx = vec![];
                        while self.eat(',') { self.attrs(); let it = self.ty(); let v = self.val(&it, n); idx.push((it, v)); }
                        self.expect(')');
                        let (off, dynm) = gep(&t, &idx);
                        assert!(dynm.is_empty()); let O::K(b) = base else { panic!() };
                        O::K(b.wrapping_add(off as u64))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => { self.expect('('); let t = self.ty(); let v = self.val(&t, n); assert!(self.lit("to")); let t2 = self.ty(); self.expect(')'); if w == "trunc" { if let O::K(k) = v { return O::K(k & crate::expr::mask64(t2.bits())); } } v }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                        loop { self.ws(); if self.peek() == '(' { break; } self.word(); }
                        self.expect('('); let t = self.ty(); let a = self.val(&t, n); self.expect(','); let t2 = self.ty(); let b = self.val(&t2, n); self.expect(')');
                        let (O::K(a), O::K(b)) = (a, b) else { panic!() };
                        O::K(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, _ => a.wrapping_mul(b) } & crate::expr::mask64(t.bits()))
                    }
                    _ => match ty {
                        Ty::Int(b) => self.int(w, *b),
                        Ty::Float(64) => { if let Some(h) = w.strip_prefix("0x") { O::K(u64::from_str_radix(h, 16).unwrap()) } else { let mut t = w.to_string(); if self.peek() == '+' { self.i += 1; t.push_str(self.word()); } O::K(t.parse::<f64>().unwrap_or(0.0).to_bits()) } }
                        Ty::Float(_) => { if self.peek() == '+' { self.i += 1; self.word(); } O::K(0) }
                        Ty::Ptr => self.int(w, 64),
                        _ => panic!("value `{w}` of {ty:?} in `{}`", self.s.chars().take(300).collect::<String>()),
                    },
                }
            }
        }
    }
    fn tyval(&mut self, n: &mut Names) -> (Ty, O) { let t = self.ty(); self.attrs(); let v = self.val(&t, n); (t, v) }
    fn blk(&mut self, n: &mut Names) -> u32 { assert!(self.lit("label")); let l = self.local(); n.block(&l) }

    fn inst(&mut self, n: &mut Names, b: &mut Block) {
        self.ws();
        let mut d = None;
        if self.peek() == '%' { let l = self.local(); d = Some(n.reg(&l)); self.expect('='); }
        let full = self.s;
        let mut w = self.word();
        if matches!(w, "tail" | "musttail" | "notail") { w = self.word(); }
        let dd = d.unwrap_or(u32::MAX);
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let op = match w { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, _ => BinOp::AShr };
                while !self.is_ty_start() { self.word(); }
                let t = self.ty(); let a = self.val(&t, n); self.expect(','); let c = self.val(&t, n);
                I::Bin { op, ty: t, d: dd, a, b: c }
            }
            "icmp" => {
                let mut p = self.word(); if p == "samesign" { p = self.word(); }
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                let t = self.ty(); let a = self.val(&t, n); self.expect(','); let c = self.val(&t, n);
                I::ICmp { p, ty: t, d: dd, a, b: c }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while !self.is_ty_start() { self.word(); }
                let op = match w { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, _ => CastOp::Bitcast };
                let (f, a) = self.tyval(n); assert!(self.lit("to")); let t = self.ty();
                I::Cast { op, from: f, to: t, d: dd, a }
            }
            "freeze" => { let (f, a) = self.tyval(n); I::Cast { op: CastOp::Freeze, from: f.clone(), to: f, d: dd, a } }
            "select" => { while !self.is_ty_start() { self.word(); } let (ct, c) = self.tyval(n); self.expect(','); let (t, a) = self.tyval(n); self.expect(','); let (_, e) = self.tyval(n); I::Select { cty: ct, ty: t, d: dd, c, a, b: e } }
            "phi" => {
                while !self.is_ty_start() { self.word(); }
                let t = self.ty(); let mut v = vec![];
                loop { self.expect('['); let x = self.val(&t, n); self.expect(','); let l = self.local(); let bl = n.block(&l); self.expect(']'); v.push((bl, x)); if !self.eat(',') { break; } }
                b.phis.push((dd, v, t)); return;
            }
            "load" => { loop { let pw = self.peek_word(); if pw == "atomic" || pw == "volatile" { self.word(); } else { break; } } let t = self.ty(); self.expect(','); let (_, p) = self.tyval(n); I::Load { ty: t, d: dd, p } }
            "store" => { loop { let pw = self.peek_word(); if pw == "atomic" || pw == "volatile" { self.word(); } else { break; } } let (t, v) = self.tyval(n); self.expect(','); let (_, p) = self.tyval(n); I::Store { ty: t, v, p } }
            "getelementptr" => {
                loop { self.ws(); if self.is_ty_start() { break; } let w = self.word(); if w == "inrange" { self.ws(); self.parens(); } if w.is_empty() { panic!("gep {full}"); } }
                let t = self.ty(); self.expect(','); let (_, p) = self.tyval(n);
                let mut idx = vec![];
                while self.eat(',') { let (it, v) = self.tyval(n); idx.push((it, v)); }
                let (off, dynm) = gep(&t, &idx);
                I::Gep { d: dd, p, off, idx: dynm }
            }
            "alloca" => { let t = self.ty(); let mut num = O::K(1); if self.eat(',') { if self.is_ty_start() { let (_, v) = self.tyval(n); num = v; } } I::Alloca { d: dd, size: t.size(), n: num } }
            "br" => { if self.lit("label") { let l = self.local(); I::Br(n.block(&l)) } else { let (_, c) = self.tyval(n); self.expect(','); let x = self.blk(n); self.expect(','); let y = self.blk(n); I::CBr(c, x, y) } }
            "switch" => {
                let (t, v) = self.tyval(n); self.expect(','); let def = self.blk(n); self.expect('[');
                let mut cases = vec![];
                while !self.eat(']') { let (_, k) = self.tyval(n); let k = match k { O::K(k) => k, O::Wide(l) => { assert!(l[1..].iter().all(|x| *x == 0)); l[0] } _ => panic!() }; self.expect(','); let bl = self.blk(n); cases.push((k, bl)); }
                I::Switch { ty: t, v, def, cases }
            }
            "ret" => { let t = self.ty(); if t == Ty::Void { I::Ret(t, None) } else { let v = self.val(&t, n); I::Ret(t, Some(v)) } }
            "unreachable" => I::Unreachable,
            "resume" | "landingpad" | "cleanupret" => I::Unreachable,
            "fence" => I::Nop,
            "extractvalue" => { let (_, a) = self.tyval(n); let mut path = vec![]; while self.eat(',') { path.push(self.word().parse().unwrap()); } I::ExtractV { d: dd, a, path } }
            "insertvalue" => { let (_, a) = self.tyval(n); self.expect(','); let (_, v) = self.tyval(n); let mut path = vec![]; while self.eat(',') { path.push(self.word().parse().unwrap()); } I::InsertV { d: dd, a, v, path } }
            "extractelement" => { let (t, a) = self.tyval(n); self.expect(','); let (_, i) = self.tyval(n); I::ExtractE { d: dd, ty: t, a, i } }
            "insertelement" => { let (t, a) = self.tyval(n); self.expect(','); let (_, v) = self.tyval(n); self.expect(','); let (_, i) = self.tyval(n); I::InsertE { d: dd, ty: t, a, v, i } }
            "shufflevector" => {
                let (t, a) = self.tyval(n); self.expect(','); let (_, c) = self.tyval(n); self.expect(','); let (mt, m) = self.tyval(n);
                let m = match m { O::Agg(v) => v.iter().map(|x| if let O::K(k) = x { *k as i32 as i64 } else { -1 }).collect(), _ => vec![0; mt.nfields()] };
                I::Shuffle { d: dd, n: t.nfields() as u32, a, b: c, m }
            }
            "atomicrmw" => { if self.peek_word() == "volatile" { self.word(); } let op = self.word().to_string(); let (_, p) = self.tyval(n); self.expect(','); let (t, v) = self.tyval(n); I::Rmw { op, ty: t, d, p, v } }
            "cmpxchg" => { while matches!(self.peek_word(), "weak" | "volatile") { self.word(); } let (_, p) = self.tyval(n); self.expect(','); let (t, c) = self.tyval(n); self.expect(','); let (_, v) = self.tyval(n); I::CmpXchg { ty: t, d, p, c, n: v } }
            "call" | "invoke" => {
                self.attrs();
                let rty = self.ty();
                self.ws();
                // optional function type
                if self.peek() == '(' { self.parens(); }
                self.attrs_callee();
                self.ws();
                let f = if self.peek() == '@' { let s = self.symname(); match self.m.fn_ix.get(&s) { Some(f) => Callee::Fun(*f), None => { let a = self.m.sym_addr(&s); match self.m.addr_fn(a) { Some(f) => Callee::Fun(f), None => Callee::Ind(O::K(a)) } } } }
                    else if self.peek() == '%' { let l = self.local(); Callee::Ind(O::Reg(n.reg(&l))) }
                    else { let k = self.peek_word(); if k == "asm" { let st = self.i; // skip to args
                            let mut q = 0; while q < 4 { if self.peek() == '"' { q += 1; } self.i += self.peek().len_utf8(); }
                            Callee::Asm(self.s[st..self.i].to_string()) } else { let v = self.val(&Ty::Ptr, n); Callee::Ind(v) } };
                self.expect('(');
                let mut args = vec![]; let mut argty = vec![];
                loop {
                    if self.eat(')') { break; }
                    if self.eat(',') { continue; }
                    let t = self.ty();
                    if t == Ty::Other { // metadata operand
                        let mut dpt = 0; while !self.eof() { let c = self.peek(); if c == '(' { dpt += 1; } if c == ')' { if dpt == 0 { break; } dpt -= 1; } if c == ',' && dpt == 0 { break; } self.i += c.len_utf8(); }
                        continue;
                    }
                    self.attrs(); let v = self.val(&t, n); args.push(v); argty.push(t);
                }
                let mut cont = None;
                if w == "invoke" { let k = self.s[self.i..].find(" to label ").expect("invoke target"); self.i += k + 4; let bl = self.blk(n); cont = Some(bl); }
                I::Call { d, rty, f, args, argty, cont }
            }
            _ => I::Unsupported(full.trim().to_string()),
        };
        b.code.push(i);
    }
    fn attrs_callee(&mut self) { self.ws(); }
}

fn gep(t: &Ty, idx: &[(Ty, O)]) -> (i64, Vec<(O, u32, u64)>) {
    let mut off = 0i64; let mut dynm = vec![];
    let mut cur = t.clone();
    for (k, (it, v)) in idx.iter().enumerate() {
        let bits = it.bits();
        if k == 0 {
            let sz = cur.size();
            match v { O::K(c) => off = off.wrapping_add(sx(*c, bits).wrapping_mul(sz as i64)), o => dynm.push((o.clone(), bits, sz)) }
        } else {
            match &cur {
                Ty::Struct(..) => { let O::K(c) = v else { panic!() }; off += cur.field_off(*c as usize) as i64; cur = cur.field(*c as usize).clone(); }
                _ => { let el = cur.field(0).clone(); let sz = el.size(); match v { O::K(c) => off = off.wrapping_add(sx(*c, bits).wrapping_mul(sz as i64)), o => dynm.push((o.clone(), bits, sz)) } cur = el; }
            }
        }
    }
    (off, dynm)
}
pub fn sx(v: u64, bits: u32) -> i64 { if bits >= 64 { v as i64 } else { ((v << (64 - bits)) as i64) >> (64 - bits) } }
