//! Hash-consed bit-vector expressions with local simplification and concrete evaluation.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Concat,
}

/// Concrete bit-vector value: small ones are stored inline.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Bv {
    S(u128),
    B(Box<[u64]>),
}

#[inline]
pub fn mask128(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn mask64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

impl Bv {
    pub fn zero(w: u32) -> Bv { if w <= 128 { Bv::S(0) } else { Bv::B(vec![0; ((w + 63) / 64) as usize].into()) } }
    pub fn from_u64(w: u32, v: u64) -> Bv {
        if w <= 128 { Bv::S(v as u128 & mask128(w)) } else { let mut l = vec![0u64; ((w + 63) / 64) as usize]; l[0] = v; Bv::B(l.into()) }
    }
    pub fn limbs(&self, w: u32) -> Vec<u64> {
        let n = ((w + 63) / 64) as usize;
        match self {
            Bv::S(v) => { let mut l = vec![*v as u64, (*v >> 64) as u64]; l.resize(n.max(1), 0); l.truncate(n.max(1)); l }
            Bv::B(b) => { let mut l = b.to_vec(); l.resize(n, 0); l }
        }
    }
    pub fn from_limbs(w: u32, mut l: Vec<u64>) -> Bv {
        let n = ((w + 63) / 64) as usize;
        l.resize(n, 0);
        if w % 64 != 0 { let k = l.len() - 1; l[k] &= mask64(w % 64); }
        if w <= 128 {
            let lo = l[0] as u128; let hi = if n > 1 { l[1] as u128 } else { 0 };
            Bv::S(lo | (hi << 64))
        } else { Bv::B(l.into()) }
    }
    pub fn bit(&self, i: u32) -> bool {
        match self { Bv::S(v) => (v >> i) & 1 == 1, Bv::B(b) => (b[(i / 64) as usize] >> (i % 64)) & 1 == 1 }
    }
    pub fn is_zero(&self) -> bool { match self { Bv::S(v) => *v == 0, Bv::B(b) => b.iter().all(|x| *x == 0) } }
    pub fn u64(&self) -> u64 { match self { Bv::S(v) => *v as u64, Bv::B(b) => b[0] } }
    /// value as u64 saturating
    pub fn sat_u64(&self) -> u64 {
        match self { Bv::S(v) => if *v > u64::MAX as u128 { u64::MAX } else { *v as u64 },
            Bv::B(b) => if b[1..].iter().any(|x| *x != 0) { u64::MAX } else { b[0] } }
    }
    pub fn ones(w: u32) -> Bv { if w <= 128 { Bv::S(mask128(w)) } else { Bv::from_limbs(w, vec![u64::MAX; ((w + 63) / 64) as usize]) } }
    pub fn is_ones(&self, w: u32) -> bool { *self == Bv::ones(w) }
}

fn sext128(v: u128, w: u32) -> i128 { if w == 0 { 0 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn cmp_limbs(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } }
    std::cmp::Ordering::Equal
}

pub fn bv_extract(a: &Bv, aw: u32, lo: u32, w: u32) -> Bv {
    if aw <= 128 { if let Bv::S(v) = a { return Bv::S((v >> lo) & mask128(w)); } }
    let l = a.limbs(aw);
    let n = ((w + 63) / 64) as usize;
    let mut r = vec![0u64; n];
    for (i, x) in r.iter_mut().enumerate() {
        let p = lo as usize + i * 64;
        let (q, s) = (p / 64, p % 64);
        if q < l.len() { *x = l[q] >> s; }
        if s != 0 && q + 1 < l.len() { *x |= l[q + 1] << (64 - s); }
    }
    Bv::from_limbs(w, r)
}
fn bv_shl_big(a: &Bv, aw: u32, s: u32, w: u32) -> Vec<u64> {
    let l = a.limbs(aw);
    let n = ((w + 63) / 64) as usize;
    let mut r = vec![0u64; n];
    let (q, b) = ((s / 64) as usize, s % 64);
    for i in 0..l.len() {
        if i + q < n { r[i + q] |= l[i] << b; }
        if b != 0 && i + q + 1 < n { r[i + q + 1] |= l[i] >> (64 - b); }
    }
    r
}
pub fn bv_concat(h: &Bv, hw: u32, l: &Bv, lw: u32) -> Bv {
    let w = hw + lw;
    if w <= 128 { if let (Bv::S(a), Bv::S(b)) = (h, l) { return Bv::S(if lw >= 128 { *b } else { (a << lw) | b }); } }
    let mut r = bv_shl_big(h, hw, lw, w);
    for (i, x) in l.limbs(lw).iter().enumerate() { r[i] |= x; }
    Bv::from_limbs(w, r)
}
pub fn bv_zext(a: &Bv, aw: u32, w: u32) -> Bv { if w <= 128 { a.clone() } else { Bv::from_limbs(w, a.limbs(aw)) } }
pub fn bv_sext(a: &Bv, aw: u32, w: u32) -> Bv {
    if w <= 128 { if let Bv::S(v) = a { return Bv::S(sext128(*v, aw) as u128 & mask128(w)); } }
    if !a.bit(aw - 1) { return bv_zext(a, aw, w); }
    bv_concat(&Bv::ones(w - aw), w - aw, a, aw)
}
fn bv_neg_l(a: &[u64]) -> Vec<u64> {
    let mut c = true; let mut r = Vec::with_capacity(a.len());
    for x in a { let (v, o) = (!x).overflowing_add(c as u64); r.push(v); c = o; }
    r
}
fn udivrem_l(a: &[u64], b: &[u64]) -> (Vec<u64>, Vec<u64>) {
    let n = a.len(); let mut q = vec![0u64; n]; let mut r = vec![0u64; n];
    for i in (0..n * 64).rev() {
        let mut c = (a[i / 64] >> (i % 64)) & 1;
        for x in r.iter_mut() { let nc = *x >> 63; *x = (*x << 1) | c; c = nc; }
        if c == 1 || cmp_limbs(&r, b) != std::cmp::Ordering::Less {
            let mut br = false;
            for k in 0..n { let (v, o1) = r[k].overflowing_sub(b[k]); let (v, o2) = v.overflowing_sub(br as u64); r[k] = v; br = o1 | o2; }
            q[i / 64] |= 1 << (i % 64);
        }
    }
    (q, r)
}
/// Concrete semantics (SMT-LIB for division by zero). `w` is the operand width (for Concat: width of a, bw width of b).
pub fn bv_bin(op: Op, w: u32, a: &Bv, bw: u32, b: &Bv) -> Bv {
    use Op::*;
    if op == Concat { return bv_concat(a, w, b, bw); }
    if let (Bv::S(x), Bv::S(y)) = (a, b) {
        let (x, y) = (*x, *y); let m = mask128(w);
        let bo = |c: bool| Bv::S(c as u128);
        return match op {
            Add => Bv::S(x.wrapping_add(y) & m), Sub => Bv::S(x.wrapping_sub(y) & m), Mul => Bv::S(x.wrapping_mul(y) & m),
            UDiv => Bv::S(if y == 0 { m } else { x / y }), URem => Bv::S(if y == 0 { x } else { x % y }),
            SDiv => { let (sx, sy) = (sext128(x, w), sext128(y, w));
                Bv::S(if y == 0 { if sx < 0 { 1 } else { m } } else { sx.wrapping_div(sy) as u128 & m }) }
            SRem => { let (sx, sy) = (sext128(x, w), sext128(y, w)); Bv::S(if y == 0 { x } else { sx.wrapping_rem(sy) as u128 & m }) }
            And => Bv::S(x & y), Or => Bv::S(x | y), Xor => Bv::S(x ^ y),
            Shl => Bv::S(if y >= w as u128 { 0 } else { (x << y) & m }),
            LShr => Bv::S(if y >= w as u128 { 0 } else { x >> y }),
            AShr => { let s = sext128(x, w); Bv::S((if y >= w as u128 { s >> 127 } else { s >> y }) as u128 & m) }
            Eq => bo(x == y), Ult => bo(x < y), Ule => bo(x <= y),
            Slt => bo(sext128(x, w) < sext128(y, w)), Sle => bo(sext128(x, w) <= sext128(y, w)),
            Concat => unreachable!(),
        };
    }
    let (x, y) = (a.limbs(w), b.limbs(w));
    let n = x.len();
    let bo = |c: bool| Bv::S(c as u128);
    match op {
        Add => { let mut c = false; let mut r = vec![0; n]; for i in 0..n { let (v, o1) = x[i].overflowing_add(y[i]); let (v, o2) = v.overflowing_add(c as u64); r[i] = v; c = o1 | o2; } Bv::from_limbs(w, r) }
        Sub => { let mut c = false; let mut r = vec![0; n]; for i in 0..n { let (v, o1) = x[i].overflowing_sub(y[i]); let (v, o2) = v.overflowing_sub(c as u64); r[i] = v; c = o1 | o2; } Bv::from_limbs(w, r) }
        Mul => { let mut r = vec![0u64; n];
            for i in 0..n { let mut c = 0u128; for j in 0..n - i { let t = x[i] as u128 * y[j] as u128 + r[i + j] as u128 + c; r[i + j] = t as u64; c = t >> 64; } }
            Bv::from_limbs(w, r) }
        UDiv | URem => {
            if y.iter().all(|v| *v == 0) { return if op == UDiv { Bv::ones(w) } else { a.clone() }; }
            let (q, r) = udivrem_l(&x, &y); Bv::from_limbs(w, if op == UDiv { q } else { r }) }
        SDiv | SRem => {
            let e = |v: &Bv| bv_sext(v, w, ((w + 63) / 64) * 64).limbs(((w + 63) / 64) * 64);
            let (x, y) = (e(a), e(b)); let nx = x[n - 1] >> 63 == 1; let ny = y[n - 1] >> 63 == 1;
            if y.iter().all(|v| *v == 0) { return if op == SDiv { if nx { Bv::from_u64(w, 1) } else { Bv::ones(w) } } else { a.clone() }; }
            let ax = if nx { bv_neg_l(&x) } else { x }; let ay = if ny { bv_neg_l(&y) } else { y };
            let (q, r) = udivrem_l(&ax, &ay);
            Bv::from_limbs(w, if op == SDiv { if nx != ny { bv_neg_l(&q) } else { q } } else if nx { bv_neg_l(&r) } else { r }) }
        And => Bv::from_limbs(w, x.iter().zip(&y).map(|(a, b)| a & b).collect()),
        Or => Bv::from_limbs(w, x.iter().zip(&y).map(|(a, b)| a | b).collect()),
        Xor => Bv::from_limbs(w, x.iter().zip(&y).map(|(a, b)| a ^ b).collect()),
        Shl => { let s = b.sat_u64(); if s >= w as u64 { Bv::zero(w) } else { Bv::from_limbs(w, bv_shl_big(a, w, s as u32, w)) } }
        LShr => { let s = b.sat_u64(); if s >= w as u64 { Bv::zero(w) } else { bv_zext(&bv_extract(a, w, s as u32, w - s as u32), w - s as u32, w) } }
        AShr => { let s = b.sat_u64().min(w as u64 - 1); bv_sext(&bv_extract(a, w, s as u32, w - s as u32), w - s as u32, w) }
        Eq => bo(x == y),
        Ult => bo(cmp_limbs(&x, &y).is_lt()), Ule => bo(cmp_limbs(&x, &y).is_le()),
        Slt | Sle => { let (na, nb) = (a.bit(w - 1), b.bit(w - 1));
            let c = if na != nb { if na { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater } } else { cmp_limbs(&x, &y) };
            bo(if op == Slt { c.is_lt() } else { c.is_le() }) }
        Concat => unreachable!(),
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    K(u32, Bv),
    Var(u32, u32), // width, index
    Bin(Op, Id, Id),
    Extract(Id, u32, u32), // e, lo, w
    ZExt(Id, u32),
    SExt(Id, u32),
    Ite(Id, Id, Id),
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub widths: Vec<u32>,
    map: HashMap<Node, Id>,
    pub nvars: u32,
    pub var_ids: Vec<Id>,
    vars_cache: Vec<Option<std::rc::Rc<[u32]>>>,
    eval_memo: Vec<(u32, Option<Bv>)>,
    eval_gen: u32,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { nodes: vec![], widths: vec![], map: HashMap::new(), nvars: 0, var_ids: vec![], vars_cache: vec![], eval_memo: vec![], eval_gen: 0 };
        a.kc(1, 0); // id 0 is reserved and is constant false
        a.kc(1, 1);
        a
    }
    #[inline] pub fn w(&self, e: Id) -> u32 { self.widths[e as usize] }
    fn intern(&mut self, n: Node, w: u32) -> Id {
        if let Some(i) = self.map.get(&n) { return *i; }
        let id = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.widths.push(w);
        self.map.insert(n, id);
        id
    }
    pub fn k(&mut self, w: u32, v: Bv) -> Id { self.intern(Node::K(w, v), w) }
    pub fn kc(&mut self, w: u32, v: u64) -> Id { self.k(w, Bv::from_u64(w, v)) }
    pub fn bool(&mut self, b: bool) -> Id { b as Id }
    pub fn var(&mut self, w: u32) -> Id {
        let n = self.nvars; self.nvars += 1;
        let id = self.intern(Node::Var(w, n), w);
        self.var_ids.push(id);
        id
    }
    #[inline] pub fn konst(&self, e: Id) -> Option<&Bv> { if let Node::K(_, v) = &self.nodes[e as usize] { Some(v) } else { None } }
    pub fn is_const(&self, e: Id) -> bool { matches!(self.nodes[e as usize], Node::K(..)) }
    pub fn not(&mut self, e: Id) -> Id {
        if self.w(e) == 1 {
            match self.nodes[e as usize] {
                Node::Bin(Op::Ult, a, b) => return self.bin(Op::Ule, b, a),
                Node::Bin(Op::Ule, a, b) => return self.bin(Op::Ult, b, a),
                Node::Bin(Op::Slt, a, b) => return self.bin(Op::Sle, b, a),
                Node::Bin(Op::Sle, a, b) => return self.bin(Op::Slt, b, a),
                _ => {}
            }
        }
        let w = self.w(e); let o = self.k(w, Bv::ones(w)); self.bin(Op::Xor, e, o)
    }
    /// constant-leaf ite tree with at most `lim` leaves
    fn const_tree(&self, e: Id, lim: &mut i32) -> bool {
        match &self.nodes[e as usize] {
            Node::K(..) => { *lim -= 1; *lim >= 0 }
            Node::Ite(_, a, b) => self.const_tree(*a, lim) && self.const_tree(*b, lim),
            _ => false,
        }
    }
    fn is_const_ite(&self, e: Id) -> bool { if let Node::Ite(..) = self.nodes[e as usize] { let mut l = 40; self.const_tree(e, &mut l) } else { false } }
    fn map_ite(&mut self, e: Id, f: &mut dyn FnMut(&mut Arena, Id) -> Id) -> Id {
        if let Node::Ite(c, a, b) = self.nodes[e as usize] {
            let x = self.map_ite(a, f); let y = self.map_ite(b, f); self.ite(c, x, y)
        } else { f(self, e) }
    }
    pub fn zero_low(&self, e: Id) -> u32 {
        match &self.nodes[e as usize] {
            Node::K(w, v) => { let mut i = 0; while i < *w && !v.bit(i) { i += 1; } i }
            Node::Bin(Op::Concat, h, l) => { let z = self.zero_low(*l); if z == self.w(*l) { z + self.zero_low(*h) } else { z } }
            Node::ZExt(x, w) => { let z = self.zero_low(*x); if z == self.w(*x) { *w } else { z } }
            Node::Bin(Op::Or | Op::Xor, a, b) => self.zero_low(*a).min(self.zero_low(*b)),
            Node::Ite(_, a, b) => self.zero_low(*a).min(self.zero_low(*b)),
            _ => 0,
        }
    }
    pub fn zero_high(&self, e: Id) -> u32 {
        match &self.nodes[e as usize] {
            Node::K(w, v) => { let mut i = 0; while i < *w && !v.bit(*w - 1 - i) { i += 1; } i }
            Node::Bin(Op::Concat, h, l) => { let z = self.zero_high(*h); if z == self.w(*h) { z + self.zero_high(*l) } else { z } }
            Node::ZExt(x, w) => w - self.w(*x) + self.zero_high(*x),
            Node::Bin(Op::Or | Op::Xor, a, b) => self.zero_high(*a).min(self.zero_high(*b)),
            Node::Bin(Op::And, a, b) => self.zero_high(*a).max(self.zero_high(*b)),
            Node::Ite(_, a, b) => self.zero_high(*a).min(self.zero_high(*b)),
            Node::Bin(Op::UDiv, a, _) => self.zero_high(*a),
            _ => 0,
        }
    }
    /// unsigned upper bound (saturating u64)
    pub fn umax(&self, e: Id) -> u64 {
        let w = self.w(e);
        match &self.nodes[e as usize] {
            Node::K(_, v) => v.sat_u64(),
            Node::Ite(_, a, b) => self.umax(*a).max(self.umax(*b)),
            Node::ZExt(x, _) => self.umax(*x),
            Node::Bin(Op::URem, _, b) => match self.konst(*b) { Some(k) if !k.is_zero() => k.sat_u64() - 1, _ => u64::MAX },
            _ => { let z = self.zero_high(e); let b = w - z; if b >= 64 { u64::MAX } else { mask64(b) } }
        }
    }
    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        use Op::*;
        let w = self.w(a); let bw = self.w(b);
        if op != Concat && w != bw { panic!("width mismatch {op:?} {w} {bw}"); }
        let rw = match op { Eq | Ult | Ule | Slt | Sle => 1, Concat => w + bw, _ => w };
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            let v = bv_bin(op, w, x, bw, y);
            return self.k(rw, v);
        }
        // commutative: constant on the right
        let (a, b) = match op {
            Add | Mul | And | Or | Xor | Eq if self.is_const(a) || (!self.is_const(b) && a > b) => (b, a),
            _ => (a, b),
        };
        let bk = self.konst(b).cloned();
        let ak = self.konst(a).cloned();
        // distribute over constant-leaf ite trees
        if op != Concat {
            if bk.is_some() && self.is_const_ite(a) { return self.map_ite(a, &mut |s, x| s.bin(op, x, b)); }
            if ak.is_some() && self.is_const_ite(b) { return self.map_ite(b, &mut |s, x| s.bin(op, a, x)); }
        }
        match op {
            Add => {
                if let Some(k) = &bk {
                    if k.is_zero() { return a; }
                    if let Node::Bin(Add, x, y) = self.nodes[a as usize] { if self.is_const(y) { let s = self.bin(Add, y, b); return self.bin(Add, x, s); } }
                }
                if let Some(r) = self.disjoint(a, b, w) { return r; }
            }
            Sub => {
                if a == b { return self.k(w, Bv::zero(w)); }
                if let Some(k) = &bk { if k.is_zero() { return a; } let z = self.k(w, Bv::zero(w)); let n = self.bin(Sub, z, b); return self.bin(Add, a, n); }
                // (x + k) - x
                if let Node::Bin(Add, x, y) = self.nodes[a as usize] { if x == b { return y; } if y == b { return x; } }
                // (x+k1) - (x+k2)
                if let (Node::Bin(Add, x, y), Node::Bin(Add, x2, y2)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
                    if x == x2 { return self.bin(Sub, y, y2); }
                }
            }
            Mul => if let Some(k) = &bk {
                if k.is_zero() { return b; }
                if *k == Bv::from_u64(w, 1) { return a; }
                // power of two
                let n = self.zero_low(b);
                let one = Bv::from_u64(w, 1); let nk = Bv::from_u64(w, n as u64);
                if bv_bin(Shl, w, &one, w, &nk) == *k { let s = self.kc(w, n as u64); return self.bin(Shl, a, s); }
            },
            UDiv | URem => if let Some(k) = &bk {
                let n = self.zero_low(b);
                let one = Bv::from_u64(w, 1); let nk = Bv::from_u64(w, n as u64);
                if n < w && bv_bin(Shl, w, &one, w, &nk) == *k {
                    if op == UDiv { let s = self.kc(w, n as u64); return self.bin(LShr, a, s); }
                    if n == 0 { return self.k(w, Bv::zero(w)); }
                    let e = self.extract(a, 0, n); return self.zext(e, w);
                }
                // narrow: both fit into fewer bits
                let z = self.zero_high(a);
                let zb = self.zero_high(b);
                let m = z.min(zb);
                if m >= 8 && !k.is_zero() { let nw = w - m; let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw); let r = self.bin(op, x, y); return self.zext(r, w); }
            },
            And => {
                if a == b { return a; }
                if let Some(k) = &bk {
                    if k.is_zero() { return b; }
                    if k.is_ones(w) { return a; }
                    // mask made of runs: split at run boundaries when few
                    if let Some(r) = self.and_mask(a, &k.clone(), w) { return r; }
                }
                if w == 1 { if self.is_neg(a, b) { return 0; } }
            }
            Or => {
                if a == b { return a; }
                if let Some(k) = &bk { if k.is_zero() { return a; } if k.is_ones(w) { return b; } }
                if w == 1 { if self.is_neg(a, b) { return 1; } }
                if let Some(r) = self.disjoint(a, b, w) { return r; }
            }
            Xor => {
                if a == b { return self.k(w, Bv::zero(w)); }
                if let Some(k) = &bk {
                    if k.is_zero() { return a; }
                    if let Node::Bin(Xor, x, y) = self.nodes[a as usize] { if self.is_const(y) { let s = self.bin(Xor, y, b); return self.bin(Xor, x, s); } }
                    if w == 1 {
                        match self.nodes[a as usize] {
                            Node::Bin(Ult, x, y) => return self.bin(Ule, y, x),
                            Node::Bin(Ule, x, y) => return self.bin(Ult, y, x),
                            Node::Bin(Slt, x, y) => return self.bin(Sle, y, x),
                            Node::Bin(Sle, x, y) => return self.bin(Slt, y, x),
                            _ => {}
                        }
                    }
                }
                if bk.is_none() { if let Some(r) = self.disjoint(a, b, w) { return r; } }
            }
            Shl | LShr | AShr => {
                if let Some(k) = &bk {
                    let s = k.sat_u64();
                    if s == 0 { return a; }
                    if s >= w as u64 { if op == AShr { let t = self.extract(a, w - 1, 1); return self.sext(t, w); } return self.k(w, Bv::zero(w)); }
                    let s = s as u32;
                    return match op {
                        Shl => { let h = self.extract(a, 0, w - s); let z = self.k(s, Bv::zero(s)); self.bin(Concat, h, z) }
                        LShr => { let h = self.extract(a, s, w - s); self.zext(h, w) }
                        _ => { let h = self.extract(a, s, w - s); self.sext(h, w) }
                    };
                }
                if let Some(k) = &ak { if k.is_zero() { return a; } }
            }
            Eq => {
                if a == b { return 1; }
                if w == 1 {
                    if let Some(k) = &bk { return if k.is_zero() { self.not(a) } else { a }; }
                    let x = self.bin(Xor, a, b); return self.not(x);
                }
                if let Some(k) = &bk {
                    match self.nodes[a as usize].clone() {
                        Node::ZExt(x, _) => {
                            let xw = self.w(x);
                            let hi = bv_extract(k, w, xw, w - xw);
                            if !hi.is_zero() { return 0; }
                            let lo = bv_extract(k, w, 0, xw); let lk = self.k(xw, lo); return self.bin(Eq, x, lk);
                        }
                        Node::SExt(x, _) => {
                            let xw = self.w(x); let lo = bv_extract(k, w, 0, xw);
                            if bv_sext(&lo, xw, w) != *k { return 0; }
                            let lk = self.k(xw, lo); return self.bin(Eq, x, lk);
                        }
                        Node::Bin(Concat, h, l) => {
                            let lw = self.w(l); let hw = self.w(h);
                            let lk = bv_extract(k, w, 0, lw); let hk = bv_extract(k, w, lw, hw);
                            let lk = self.k(lw, lk); let hk = self.k(hw, hk);
                            let x = self.bin(Eq, h, hk); if x == 0 { return 0; }
                            let y = self.bin(Eq, l, lk); return self.bin(And, x, y);
                        }
                        Node::Bin(Add, x, y) if self.is_const(y) => { let s = self.bin(Sub, b, y); return self.bin(Eq, x, s); }
                        Node::Bin(Xor, x, y) if self.is_const(y) => { let s = self.bin(Xor, b, y); return self.bin(Eq, x, s); }
                        Node::Ite(c, x, y) => {
                            let kx = self.konst(x).cloned(); let ky = self.konst(y).cloned();
                            if kx.as_ref().map(|v| v != k).unwrap_or(false) { let n = self.not(c); let e = self.bin(Eq, y, b); return self.bin(And, n, e); }
                            if ky.as_ref().map(|v| v != k).unwrap_or(false) { let e = self.bin(Eq, x, b); return self.bin(And, c, e); }
                            if kx.as_ref() == Some(k) { let e = self.bin(Eq, y, b); return self.bin(Or, c, e); }
                            if ky.as_ref() == Some(k) { let n = self.not(c); let e = self.bin(Eq, x, b); return self.bin(Or, n, e); }
                        }
                        _ => {}
                    }
                } else {
                    // align structure: zext = zext, concat = concat
                    match (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
                        (Node::ZExt(x, _), Node::ZExt(y, _)) => {
                            let (xw, yw) = (self.w(x), self.w(y)); let m = xw.max(yw);
                            let x = self.zext(x, m); let y = self.zext(y, m);
                            if m < w { return self.bin(Eq, x, y); }
                        }
                        (Node::Bin(Concat, h, l), Node::Bin(Concat, h2, l2)) if self.w(l) == self.w(l2) => {
                            let x = self.bin(Eq, h, h2); if x == 0 { return 0; }
                            let y = self.bin(Eq, l, l2); return self.bin(And, x, y);
                        }
                        (Node::Bin(Add, x, y), Node::Bin(Add, x2, y2)) if x == x2 => return self.bin(Eq, y, y2),
                        (Node::Bin(Add, x, y), _) if x == b && self.is_const(y) => return 0,
                        (_, Node::Bin(Add, x, y)) if x == a && self.is_const(y) => return 0,
                        _ => {}
                    }
                }
            }
            Ult | Ule => {
                if a == b { return (op == Ule) as Id; }
                if let Some(k) = &bk {
                    if op == Ult && k.is_zero() { return 0; }
                    if op == Ule && k.is_ones(w) { return 1; }
                    let kv = k.sat_u64();
                    let m = self.umax(a);
                    if m != u64::MAX && (if op == Ult { m < kv } else { m <= kv }) { return 1; }
                    if op == Ult && *k == Bv::from_u64(w, 1) { let z = self.k(w, Bv::zero(w)); return self.bin(Eq, a, z); }
                    if op == Ule && k.is_zero() { return self.bin(Eq, a, b); }
                }
                if let Some(k) = &ak {
                    if op == Ult && k.is_ones(w) { return 0; }
                    if op == Ule && k.is_zero() { return 1; }
                    let kv = k.sat_u64(); let m = self.umax(b);
                    if m != u64::MAX && (if op == Ult { m <= kv } else { m < kv }) { return 0; }
                    if op == Ule && *k == Bv::from_u64(w, 1) { let z = self.k(w, Bv::zero(w)); let e = self.bin(Eq, b, z); return self.not(e); }
                    if op == Ult && k.is_zero() { let e = self.bin(Eq, b, a); return self.not(e); }
                }
                // drop common zero high bits
                let z = self.zero_high(a).min(self.zero_high(b));
                if z > 0 && z < w && (matches!(self.nodes[a as usize], Node::ZExt(..)) || matches!(self.nodes[b as usize], Node::ZExt(..))) {
                    let x = self.extract(a, 0, w - z); let y = self.extract(b, 0, w - z); return self.bin(op, x, y);
                }
            }
            Slt | Sle => {
                if a == b { return (op == Sle) as Id; }
                let (za, zb) = (self.zero_high(a), self.zero_high(b));
                if za > 0 && zb > 0 { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
                // sign test of a value against zero
                if let Some(k) = &bk { if k.is_zero() && op == Slt { return self.extract(a, w - 1, 1); } }
                if let Some(k) = &ak { if k.is_zero() && op == Sle { let s = self.extract(b, w - 1, 1); return self.not(s); }
                    if k.is_ones(w) && op == Slt { let s = self.extract(b, w - 1, 1); return self.not(s); } }
            }
            Concat => {
                if ak.as_ref().map(|k| k.is_zero()).unwrap_or(false) { return self.zext(b, rw); }
                if let Some(r) = self.join(a, b) { return r; }
                if let Node::Bin(Concat, h, l) = self.nodes[b as usize] {
                    if let Some(r) = self.join(a, h) { return self.bin(Concat, r, l); }
                }
                if let Node::Bin(Concat, h, l) = self.nodes[a as usize] {
                    // right associate
                    let r = self.bin(Concat, l, b); return self.bin(Concat, h, r);
                }
                if let Node::ZExt(x, _) = self.nodes[a as usize] {
                    let r = self.bin(Concat, x, b); return self.zext(r, rw);
                }
            }
            _ => {}
        }
        self.intern(Node::Bin(op, a, b), rw)
    }
    fn is_neg(&self, a: Id, b: Id) -> bool {
        let f = |x: Id, y: Id| match self.nodes[x as usize] { Node::Bin(Op::Xor, p, q) => p == y && q == 1, _ => false };
        f(a, b) || f(b, a)
    }
    /// join high part a with low part b if they are adjacent slices
    fn join(&mut self, a: Id, b: Id) -> Option<Id> {
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            let v = bv_concat(x, self.w(a), y, self.w(b)); let w = self.w(a) + self.w(b); return Some(self.k(w, v));
        }
        let (wa, wb) = (self.w(a), self.w(b));
        if let Node::Extract(x, lo, _) = self.nodes[a as usize] {
            if let Node::Extract(y, lo2, _) = self.nodes[b as usize] { if x == y && lo2 + wb == lo { return Some(self.extract(x, lo2, wa + wb)); } }
            if x == b && lo == wb { return Some(self.extract(x, 0, wa + wb)); }
        }
        if let (Node::Ite(c, x, y), Node::Ite(c2, x2, y2)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
            if c == c2 { let p = self.bin(Op::Concat, x, x2); let q = self.bin(Op::Concat, y, y2); return Some(self.ite(c, p, q)); }
        }
        None
    }
    fn disjoint(&mut self, a: Id, b: Id, w: u32) -> Option<Id> {
        for (x, y) in [(a, b), (b, a)] {
            let zh = self.zero_high(y); // y occupies low (w-zh) bits
            let k = w - zh;
            if k > 0 && k < w && self.zero_low(x) >= k {
                let h = self.extract(x, k, w - k); let l = self.extract(y, 0, k);
                return Some(self.bin(Op::Concat, h, l));
            }
            if k == 0 { return Some(x); }
        }
        None
    }
    fn and_mask(&mut self, a: Id, k: &Bv, w: u32) -> Option<Id> {
        // runs of the mask
        let mut runs: Vec<(bool, u32, u32)> = vec![]; // bit, lo, len
        for i in 0..w { let b = k.bit(i); match runs.last_mut() { Some(r) if r.0 == b => r.2 += 1, _ => { if runs.len() >= 4 { return None; } runs.push((b, i, 1)) } } }
        let mut acc: Option<Id> = None;
        for (b, lo, n) in runs {
            let part = if b { self.extract(a, lo, n) } else { self.k(n, Bv::zero(n)) };
            acc = Some(match acc { None => part, Some(l) => self.bin(Op::Concat, part, l) });
        }
        acc
    }
    pub fn extract(&mut self, e: Id, lo: u32, w: u32) -> Id {
        let ew = self.w(e);
        assert!(w > 0 && lo + w <= ew, "extract {lo}+{w} of {ew}");
        if lo == 0 && w == ew { return e; }
        match self.nodes[e as usize].clone() {
            Node::K(_, v) => { let r = bv_extract(&v, ew, lo, w); self.k(w, r) }
            Node::Extract(x, l2, _) => self.extract(x, lo + l2, w),
            Node::ZExt(x, _) => {
                let xw = self.w(x);
                if lo >= xw { self.k(w, Bv::zero(w)) }
                else if lo + w <= xw { self.extract(x, lo, w) }
                else { let p = self.extract(x, lo, xw - lo); self.zext(p, w) }
            }
            Node::SExt(x, _) => {
                let xw = self.w(x);
                if lo + w <= xw { self.extract(x, lo, w) }
                else if lo >= xw { let s = self.extract(x, xw - 1, 1); self.sext(s, w) }
                else { let p = self.extract(x, lo, xw - lo); self.sext(p, w) }
            }
            Node::Bin(Op::Concat, h, l) => {
                let lw = self.w(l);
                if lo + w <= lw { self.extract(l, lo, w) }
                else if lo >= lw { self.extract(h, lo - lw, w) }
                else { let a = self.extract(l, lo, lw - lo); let b = self.extract(h, 0, w - (lw - lo)); self.bin(Op::Concat, b, a) }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => { let x = self.extract(a, lo, w); let y = self.extract(b, lo, w); self.bin(op, x, y) }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => { let x = self.extract(a, 0, w); let y = self.extract(b, 0, w); self.bin(op, x, y) }
            Node::Ite(c, a, b) => { let x = self.extract(a, lo, w); let y = self.extract(b, lo, w); self.ite(c, x, y) }
            _ => self.intern(Node::Extract(e, lo, w), w),
        }
    }
    pub fn zext(&mut self, e: Id, w: u32) -> Id {
        let ew = self.w(e);
        if w == ew { return e; }
        assert!(w > ew);
        match self.nodes[e as usize].clone() {
            Node::K(_, v) => { let r = bv_zext(&v, ew, w); self.k(w, r) }
            Node::ZExt(x, _) => self.zext(x, w),
            Node::Ite(..) if self.is_const_ite(e) => self.map_ite(e, &mut |s, x| s.zext(x, w)),
            _ => self.intern(Node::ZExt(e, w), w),
        }
    }
    pub fn sext(&mut self, e: Id, w: u32) -> Id {
        let ew = self.w(e);
        if w == ew { return e; }
        match self.nodes[e as usize].clone() {
            Node::K(_, v) => { let r = bv_sext(&v, ew, w); self.k(w, r) }
            Node::SExt(x, _) => self.sext(x, w),
            Node::ZExt(x, _) => self.zext(x, w),
            Node::Ite(..) if self.is_const_ite(e) => self.map_ite(e, &mut |s, x| s.sext(x, w)),
            _ => self.intern(Node::SExt(e, w), w),
        }
    }
    pub fn trunc(&mut self, e: Id, w: u32) -> Id { self.extract(e, 0, w) }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if c == 1 { return a; }
        if c == 0 { return b; }
        if a == b { return a; }
        let w = self.w(a);
        if let Node::Bin(Op::Xor, x, 1) = self.nodes[c as usize] { return self.ite(x, b, a); }
        if w == 1 {
            if a == 1 && b == 0 { return c; }
            if a == 0 && b == 1 { return self.not(c); }
            if a == 1 { return self.bin(Op::Or, c, b); }
            if a == 0 { let n = self.not(c); return self.bin(Op::And, n, b); }
            if b == 1 { let n = self.not(c); return self.bin(Op::Or, n, a); }
            if b == 0 { return self.bin(Op::And, c, a); }
        }
        let a = if let Node::Ite(c2, x, _) = self.nodes[a as usize] { if c2 == c { x } else { a } } else { a };
        let b = if let Node::Ite(c2, _, y) = self.nodes[b as usize] { if c2 == c { y } else { b } } else { b };
        if a == b { return a; }
        self.intern(Node::Ite(c, a, b), w)
    }
    /// variables of an expression
    pub fn vars(&mut self, e: Id) -> std::rc::Rc<[u32]> {
        if self.vars_cache.len() < self.nodes.len() { self.vars_cache.resize(self.nodes.len(), None); }
        if let Some(v) = &self.vars_cache[e as usize] { return v.clone(); }
        let kids: Vec<Id> = match &self.nodes[e as usize] {
            Node::K(..) => vec![],
            Node::Var(_, n) => { let r: std::rc::Rc<[u32]> = vec![*n].into(); self.vars_cache[e as usize] = Some(r.clone()); return r; }
            Node::Bin(_, a, b) => vec![*a, *b],
            Node::Extract(a, ..) | Node::ZExt(a, _) | Node::SExt(a, _) => vec![*a],
            Node::Ite(c, a, b) => vec![*c, *a, *b],
        };
        let mut s: Vec<u32> = vec![];
        for k in kids { let v = self.vars(k); s.extend_from_slice(&v); }
        s.sort_unstable(); s.dedup();
        let r: std::rc::Rc<[u32]> = s.into();
        self.vars_cache[e as usize] = Some(r.clone());
        r
    }
    pub fn eval(&mut self, e: Id, model: &[u64]) -> Bv {
        if self.eval_memo.len() < self.nodes.len() { self.eval_memo.resize(self.nodes.len(), (0, None)); }
        self.eval_gen = self.eval_gen.wrapping_add(1);
        if self.eval_gen == 0 { for x in self.eval_memo.iter_mut() { x.0 = 0; } self.eval_gen = 1; }
        let mut memo = std::mem::take(&mut self.eval_memo);
        let r = self.eval_rec(e, model, &mut memo);
        self.eval_memo = memo;
        r
    }
    fn eval_rec(&self, e: Id, model: &[u64], memo: &mut [(u32, Option<Bv>)]) -> Bv {
        match &self.nodes[e as usize] {
            Node::K(_, v) => return v.clone(),
            Node::Var(w, n) => return Bv::S(model.get(*n as usize).copied().unwrap_or(0) as u128 & mask128(*w)),
            _ => {}
        }
        let m = &memo[e as usize];
        if m.0 == self.eval_gen { if let Some(v) = &m.1 { return v.clone(); } }
        let r = match &self.nodes[e as usize] {
            Node::Bin(op, a, b) => {
                let x = self.eval_rec(*a, model, memo);
                let y = self.eval_rec(*b, model, memo);
                bv_bin(*op, self.w(*a), &x, self.w(*b), &y)
            }
            Node::Extract(a, lo, w) => { let x = self.eval_rec(*a, model, memo); bv_extract(&x, self.w(*a), *lo, *w) }
            Node::ZExt(a, w) => { let x = self.eval_rec(*a, model, memo); bv_zext(&x, self.w(*a), *w) }
            Node::SExt(a, w) => { let x = self.eval_rec(*a, model, memo); bv_sext(&x, self.w(*a), *w) }
            Node::Ite(c, a, b) => { let x = self.eval_rec(*c, model, memo); if x.is_zero() { self.eval_rec(*b, model, memo) } else { self.eval_rec(*a, model, memo) } }
            _ => unreachable!(),
        };
        memo[e as usize] = (self.eval_gen, Some(r.clone()));
        r
    }
    pub fn eval_bool(&mut self, e: Id, model: &[u64]) -> bool { !self.eval(e, model).is_zero() }
    #[allow(dead_code)]
    pub fn show(&self, e: Id, depth: u32) -> String {
        if depth == 0 { return "..".into(); }
        match &self.nodes[e as usize] {
            Node::K(w, Bv::S(v)) => format!("{v:#x}:{w}"),
            Node::K(w, v) => format!("{v:?}:{w}"),
            Node::Var(w, n) => format!("v{n}:{w}"),
            Node::Bin(op, a, b) => format!("({op:?} {} {})", self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::Extract(a, lo, w) => format!("{}[{lo}+{w}]", self.show(*a, depth - 1)),
            Node::ZExt(a, w) => format!("zext{w}({})", self.show(*a, depth - 1)),
            Node::SExt(a, w) => format!("sext{w}({})", self.show(*a, depth - 1)),
            Node::Ite(c, a, b) => format!("ite({},{},{})", self.show(*c, depth - 1), self.show(*a, depth - 1), self.show(*b, depth - 1)),
        }
    }
}
