//! A universe of type shapes, an independent definition of what conforms to them (`conf`) and of
//! how a conforming value is encoded (`enc`), and generators of values for them. None of this calls
//! the code under test; it is the oracle.
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, MediumOrdMap};
use amplify::num::{i1024, u1024};
use indexmap::IndexMap;
use strict_encoding::{FieldName, Primitive, Sizing, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, NamedFields, PrimitiveRef, UnionVariants, UnnamedFields};
use strict_types::typesys::TypeSystem;
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::*;

use crate::sym;

#[derive(Clone)]
pub enum Sh {
    Prim(Primitive),
    Uni,
    Enum(Vec<(&'static str, u8)>),
    Union(Vec<(&'static str, u8, usize)>),
    Tup(Vec<usize>),
    Str(Vec<(&'static str, usize)>),
    Arr(usize, u16),
    List(usize, Sizing),
    Set(usize, Sizing),
    Map(usize, usize, Sizing),
}
use Sh::*;

pub fn vn(s: &'static str) -> VariantName { VariantName::from(s) }
pub fn fnm(s: &'static str) -> FieldName { FieldName::from(s) }

#[derive(Clone)]
pub struct U {
    pub sh: Vec<Sh>,
    pub root: usize,
}

impl U {
    pub fn add(&mut self, s: Sh) -> usize {
        self.sh.push(s);
        self.sh.len() - 1
    }
    pub fn prim(&mut self, p: Primitive) -> usize {
        if let Some(i) = self.sh.iter().position(|s| matches!(s, Prim(q) if *q == p)) { return i }
        self.add(Prim(p))
    }
    pub fn id(&self, i: usize) -> SemId {
        match &self.sh[i] {
            Prim(p) => Ty::<SemId>::Primitive(*p).sem_id_unnamed(),
            Uni => SemId::unicode_char(),
            _ => SemId::from([0x80 + i as u8; 32]),
        }
    }
    pub fn ty(&self, i: usize) -> Ty<SemId> {
        match &self.sh[i] {
            Prim(p) => Ty::Primitive(*p),
            Uni => Ty::UnicodeChar,
            Enum(v) => Ty::Enum(evars(v)),
            Union(v) => {
                let m: BTreeMap<Variant, SemId> =
                    v.iter().map(|(n, t, i)| (Variant { name: vn(n), tag: *t }, self.id(*i))).collect();
                Ty::Union(UnionVariants::try_from(m).ok().unwrap())
            }
            Tup(f) => Ty::Tuple(UnnamedFields::try_from(f.iter().map(|i| self.id(*i)).collect::<Vec<_>>()).ok().unwrap()),
            Str(f) => Ty::Struct(
                NamedFields::try_from(f.iter().map(|(n, i)| Field { name: fnm(n), ty: self.id(*i) }).collect::<Vec<_>>()).ok().unwrap(),
            ),
            Arr(i, l) => Ty::Array(self.id(*i), *l),
            List(i, s) => Ty::List(self.id(*i), *s),
            Set(i, s) => Ty::Set(self.id(*i), *s),
            Map(k, i, s) => Ty::Map(self.id(*k), self.id(*i), *s),
        }
    }
    pub fn sys(&self) -> TypeSystem {
        let mut m = BTreeMap::new();
        for i in 0..self.sh.len() { m.insert(self.id(i), self.ty(i)); }
        TypeSystem::from(Confined::try_from(m).ok().unwrap() as MediumOrdMap<SemId, Ty<SemId>>)
    }
    pub fn root_id(&self) -> SemId { self.id(self.root) }

    pub fn is_byte(&self, t: usize) -> bool { matches!(&self.sh[t], Prim(p) if *p == Primitive::BYTE || *p == Primitive::U8) }
    pub fn is_char(&self, t: usize) -> bool { matches!(&self.sh[t], Enum(v) if v.iter().all(|(_, t)| *t >= 32 && *t <= 127)) }
    pub fn rstr(&self, t: usize) -> Option<(usize, usize, Sizing)> {
        if let Tup(f) = &self.sh[t] {
            if f.len() == 2 && self.is_char(f[0]) {
                if let List(r, s) = &self.sh[f[1]] {
                    if self.is_char(*r) { return Some((f[0], *r, *s)) }
                }
            }
        }
        None
    }
    pub fn option(&self, t: usize) -> Option<(usize, usize)> {
        match &self.sh[t] {
            Union(v) if v.len() == 2 && v[0].0 == "none" && v[0].1 == 0 && v[1].0 == "some" && v[1].1 == 1 => Some((v[0].2, v[1].2)),
            _ => None,
        }
    }
    /// reading this type back is documented as not implemented
    pub fn unreadable(&self, t: usize) -> bool {
        match &self.sh[t] {
            Prim(p) => !readable(*p),
            Uni => true,
            Enum(_) => false,
            Union(v) => v.iter().any(|v| self.unreadable(v.2)),
            Tup(f) => f.iter().any(|t| self.unreadable(*t)),
            Str(f) => f.iter().any(|f| self.unreadable(f.1)),
            List(t, _) if matches!(self.sh[*t], Uni) => false,
            Arr(t, _) | List(t, _) | Set(t, _) => self.unreadable(*t),
            Map(k, t, _) => self.unreadable(*k) || self.unreadable(*t),
        }
    }
}

pub fn evars(v: &[(&'static str, u8)]) -> EnumVariants {
    let s: BTreeSet<Variant> = v.iter().map(|(n, t)| Variant { name: vn(n), tag: *t }).collect();
    EnumVariants::try_from(s).ok().unwrap()
}

pub fn readable(p: Primitive) -> bool {
    let c = p.into_code();
    c <= 8 || (0x40..=0x48).contains(&c) && ![0x43, 0x45, 0x46, 0x47].contains(&c)
}
/// (bytes, signed) for integer kinds
pub fn int_kind(p: Primitive) -> Option<(usize, bool)> {
    match p.into_code() {
        0 => None,
        0x40 => Some((1, false)),
        c if c < 0x40 => Some((p.byte_size() as usize, false)),
        c if c < 0x80 => Some((p.byte_size() as usize, true)),
        _ => None,
    }
}

pub fn prefix(s: &Sizing) -> usize {
    if s.max < 1 << 8 { 1 } else if s.max < 1 << 16 { 2 } else if s.max < 1 << 24 { 3 } else if s.max < 1 << 32 { 4 } else { 8 }
}

// ---- conformance -------------------------------------------------------------------------------

#[derive(Clone)]
pub enum V {
    /// does not conform
    No,
    /// conforms; `must`: acceptance is required (otherwise it is tolerated); the canonical value
    Yes { must: bool, val: StrictVal },
    /// two readings are possible, either is fine
    Unk,
}
use V::*;
fn must(val: StrictVal) -> V { Yes { must: true, val } }
fn may(val: StrictVal) -> V { Yes { must: false, val } }
impl V {
    fn map(self, f: impl FnOnce(StrictVal) -> StrictVal) -> V {
        match self {
            Yes { must, val } => Yes { must, val: f(val) },
            o => o,
        }
    }
    fn weak(self) -> V {
        match self {
            Yes { val, .. } => may(val),
            o => o,
        }
    }
}
/// all of several parts
fn all(parts: Vec<V>) -> Result<(bool, Vec<StrictVal>), V> {
    if parts.iter().any(|p| matches!(p, No)) { return Err(No) }
    let mut m = true;
    let mut out = vec![];
    for p in parts {
        match p {
            Yes { must, val } => {
                m &= must;
                out.push(val)
            }
            o => return Err(o),
        }
    }
    Ok((m, out))
}
fn seq(parts: Vec<V>, f: impl FnOnce(Vec<StrictVal>) -> StrictVal) -> V {
    match all(parts) {
        Ok((must, v)) => Yes { must, val: f(v) },
        Err(e) => e,
    }
}

pub fn num_fits(n: &StrictNum, w: usize, signed: bool) -> bool {
    match (n, signed) {
        (StrictNum::Uint(v), false) => w >= 8 || *v >> (8 * w) == 0,
        (StrictNum::Uint(v), true) => w > 8 || *v >> (8 * w - 1) == 0,
        (StrictNum::Int(v), true) => w >= 8 || (*v >= -(1i64 << (8 * w - 1)) && *v < 1i64 << (8 * w - 1)),
        (StrictNum::Int(v), false) => *v >= 0 && (w >= 8 || *v < 1i64 << (8 * w)),
        (StrictNum::BigUint(v), s) => {
            let b = v.to_le_bytes();
            b[w..].iter().all(|x| *x == 0) && (!s || b[w - 1] < 0x80)
        }
        (StrictNum::BigInt(v), true) => {
            let b = v.to_le_bytes();
            let f = if b[w - 1] >= 0x80 { 0xFF } else { 0 };
            b[w..].iter().all(|x| *x == f)
        }
        (StrictNum::BigInt(v), false) => {
            let b = v.to_le_bytes();
            b[w..].iter().all(|x| *x == 0) && b[127] < 0x80
        }
        _ => false,
    }
}
/// sign-extended little-endian bytes, 129 of them
pub fn num_bytes(n: &StrictNum) -> [u8; 129] {
    let mut r = [0u8; 129];
    match n {
        StrictNum::Uint(v) => r[..8].copy_from_slice(&v.to_le_bytes()),
        StrictNum::Int(v) => {
            let f = if *v < 0 { 0xFF } else { 0 };
            r = [f; 129];
            r[..8].copy_from_slice(&v.to_le_bytes());
        }
        StrictNum::BigUint(v) => r[..128].copy_from_slice(&v.to_le_bytes()),
        StrictNum::BigInt(v) => {
            let b = v.to_le_bytes();
            r = [if b[127] >= 0x80 { 0xFF } else { 0 }; 129];
            r[..128].copy_from_slice(&b);
        }
        _ => sym::reject(),
    }
    r
}

impl U {
    fn conf_num(&self, p: Primitive, n: &StrictNum) -> V {
        let Some((w, signed)) = int_kind(p) else { return No };
        if !num_fits(n, w, signed) { return No }
        // the spelling natural for the width is required, others are tolerated
        match (n, signed, w <= 8) {
            (StrictNum::Uint(_), false, true) => must(StrictVal::Number(*n)),
            (StrictNum::Uint(v), true, true) => must(StrictVal::Number(StrictNum::Int(*v as i64))),
            (StrictNum::Int(_), true, true) => must(StrictVal::Number(*n)),
            (StrictNum::BigUint(_), false, false) => must(StrictVal::Number(*n)),
            (StrictNum::BigInt(_), true, false) => must(StrictVal::Number(*n)),
            _ => may(StrictVal::Number(*n)),
        }
    }
    fn enum_tag(&self, t: usize, tag: u8) -> V {
        let Enum(vs) = &self.sh[t] else { return No };
        for (n, x) in vs {
            if *x == tag { return must(StrictVal::Enum(EnumTag::Name(vn(n)))) }
        }
        No
    }
    fn enum_str(&self, t: usize, s: &str) -> V {
        let Enum(vs) = &self.sh[t] else { return No };
        let byname = vs.iter().find(|(n, _)| same_str(n, s)).map(|(n, _)| *n);
        let bytag = if s.len() == 1 {
            let b = s.as_bytes()[0];
            vs.iter().find(|(_, x)| *x == b).map(|(n, _)| *n)
        } else {
            None
        };
        match (byname, bytag) {
            (Some(a), Some(b)) if a != b => Unk,
            (Some(a), _) | (None, Some(a)) => must(StrictVal::Enum(EnumTag::Name(vn(a)))),
            _ => No,
        }
    }
    fn chars(&self, t: usize, s: &str) -> bool { s.bytes().all(|b| !matches!(self.enum_tag(t, b), No)) }
    fn seq_str(&self, item: usize, s: &str) -> V {
        seq(s.bytes().map(|b| self.enum_tag(item, b)).collect(), StrictVal::List)
    }
    fn to_bytes(v: Vec<StrictVal>) -> StrictVal {
        StrictVal::Bytes(Blob(
            v.iter()
                .map(|v| match v {
                    StrictVal::Number(StrictNum::Uint(b)) => *b as u8,
                    StrictVal::Number(n) => num_bytes(n)[0],
                    _ => 0,
                })
                .collect(),
        ))
    }
    fn tag_char(&self, t: usize, v: &StrictVal) -> char {
        let (Enum(vs), StrictVal::Enum(EnumTag::Name(n))) = (&self.sh[t], v) else { return '?' };
        vs.iter().find(|(m, _)| *m == n.as_str()).map(|x| x.1 as char).unwrap_or('?')
    }
    fn join(&self, t: usize, v: &[StrictVal]) -> StrictVal { StrictVal::String(v.iter().map(|x| self.tag_char(t, x)).collect()) }

    /// Does `v` conform to type `t`, and which canonical value does it denote?
    pub fn conf(&self, t: usize, v: &StrictVal) -> V {
        match (&self.sh[t], v) {
            (Prim(p), _) if *p == Primitive::UNIT => match v {
                StrictVal::Unit => must(StrictVal::Unit),
                StrictVal::Tuple(f) if f.is_empty() => must(StrictVal::Unit),
                StrictVal::List(f) if f.is_empty() => must(StrictVal::Unit),
                StrictVal::Struct(f) if f.is_empty() => must(StrictVal::Unit),
                StrictVal::Map(f) if f.is_empty() => must(StrictVal::Unit),
                _ => No,
            },
            (Prim(p), StrictVal::Number(n)) => self.conf_num(*p, n),
            (Prim(_), _) => No,
            (Uni, StrictVal::String(s)) if s.chars().count() == 1 => Unk,
            (Uni, _) => No,
            (Enum(vs), StrictVal::Enum(EnumTag::Name(n))) => {
                if vs.iter().any(|(m, _)| *m == n.as_str()) { must(v.clone()) } else { No }
            }
            (Enum(_), StrictVal::Enum(EnumTag::Ord(o))) => self.enum_tag(t, *o),
            (Enum(_), StrictVal::String(s)) => self.enum_str(t, s),
            (Enum(_), StrictVal::Number(StrictNum::Uint(n))) if *n < 256 => self.enum_tag(t, *n as u8),
            (Enum(_), StrictVal::Number(n)) if num_fits(n, 1, false) => self.enum_tag(t, num_bytes(n)[0]).weak(),
            (Enum(_), _) => No,
            (Union(vs), v) => {
                if let StrictVal::Union(tag, inner) = v {
                    for (n, x, i) in vs {
                        let hit = match tag {
                            EnumTag::Name(m) => m.as_str() == *n,
                            EnumTag::Ord(o) => o == x,
                        };
                        if hit { return self.conf(*i, inner).map(|c| StrictVal::Union(EnumTag::Name(vn(n)), Box::new(c))) }
                    }
                }
                let Some((none, some)) = self.option(t) else { return No };
                let bare = |c: V| c.map(|c| StrictVal::Union(EnumTag::Name(vn("some")), Box::new(c)));
                let nil = || self.conf(none, &StrictVal::Unit).map(|c| StrictVal::Union(EnumTag::Name(vn("none")), Box::new(c)));
                match v {
                    StrictVal::Union(..) => bare(self.conf(some, v)).weak(),
                    StrictVal::Unit => nil(),
                    StrictVal::Tuple(f) if f.len() == 2 => match &f[0] {
                        StrictVal::String(s) if same_str("none", s) && f[1] == StrictVal::Unit => nil(),
                        StrictVal::String(s) if same_str("some", s) => bare(self.conf(some, &f[1])),
                        _ => bare(self.conf(some, v)).weak(),
                    },
                    _ => bare(self.conf(some, v)),
                }
            }
            (Tup(fs), v) => {
                if let (Some((first, rest, sz)), StrictVal::String(s)) = (self.rstr(t), v) {
                    let ok = !s.is_empty()
                        && self.chars(first, &s.as_str().chars().next().unwrap().to_string())
                        && s.bytes().skip(1).all(|b| !matches!(self.enum_tag(rest, b), No))
                        && within(s.len() - 1, &sz);
                    return if ok { must(v.clone()) } else { No };
                }
                let as_tuple = |xs: &Vec<StrictVal>| {
                    if xs.len() != fs.len() { return No }
                    let c = seq(xs.iter().zip(fs).map(|(x, t)| self.conf(*t, x)).collect(), StrictVal::Tuple);
                    match self.rstr(t) {
                        Some((first, _, _)) => c.map(|c| {
                            let StrictVal::Tuple(p) = c else { return c };
                            let StrictVal::String(r) = &p[1] else { return StrictVal::Unit };
                            StrictVal::String(format!("{}{r}", self.tag_char(first, &p[0])))
                        }),
                        None => c,
                    }
                };
                let bare = || if fs.len() == 1 { self.conf(fs[0], v).map(|c| StrictVal::Tuple(vec![c])) } else { No };
                match v {
                    StrictVal::Tuple(xs) => match as_tuple(xs) {
                        No => bare().weak(),
                        y => y,
                    },
                    StrictVal::List(xs) => match (as_tuple(xs), bare()) {
                        (No, b) if xs.len() != fs.len() => b,
                        (No, b) => b.weak(),
                        (a, No) => a,
                        _ => Unk,
                    },
                    _ => bare(),
                }
            }
            (Str(fs), StrictVal::Struct(m)) => {
                if m.len() != fs.len() { return No }
                let mut parts = vec![];
                for (n, t) in fs {
                    match m.iter().find(|(k, _)| k.as_str() == *n) {
                        Some((_, x)) => parts.push(self.conf(*t, x)),
                        None => return No,
                    }
                }
                self.mk_struct(fs, parts)
            }
            (Str(fs), StrictVal::Map(m)) => {
                if m.len() != fs.len() { return No }
                let mut parts = vec![];
                for (n, t) in fs {
                    match m.iter().find(|(k, _)| matches!(k, StrictVal::String(k) if same_str(n, k))) {
                        Some((_, x)) => parts.push(self.conf(*t, x)),
                        None => return No,
                    }
                }
                self.mk_struct(fs, parts)
            }
            (Str(_), _) => No,
            (Arr(i, l), v) => {
                let l = *l as usize;
                match v {
                    StrictVal::Bytes(b) if self.is_byte(*i) && b.len() == l => must(v.clone()),
                    StrictVal::String(s) if s.len() != l => No,
                    StrictVal::String(s) if self.is_byte(*i) => {
                        Yes { must: s.is_ascii(), val: StrictVal::Bytes(Blob(s.as_bytes().to_vec())) }
                    }
                    StrictVal::String(s) if matches!(self.sh[*i], Enum(_)) => self.seq_str(*i, s).weak(),
                    StrictVal::List(xs) if xs.len() == l => {
                        let parts = xs.iter().map(|x| self.conf(*i, x)).collect();
                        if self.is_byte(*i) { seq(parts, Self::to_bytes) } else { seq(parts, StrictVal::List) }
                    }
                    _ => No,
                }
            }
            (List(i, s), v) => match v {
                StrictVal::Bytes(b) if self.is_byte(*i) && within(b.len(), s) => must(v.clone()),
                StrictVal::String(x) if !within(x.len(), s) => No,
                StrictVal::String(x) if self.is_byte(*i) => must(StrictVal::Bytes(Blob(x.as_bytes().to_vec()))),
                StrictVal::String(_) if matches!(self.sh[*i], Uni) => must(v.clone()),
                StrictVal::String(x) if self.is_char(*i) => if self.chars(*i, x) { must(v.clone()) } else { No },
                StrictVal::String(x) if matches!(self.sh[*i], Enum(_)) => self.seq_str(*i, x).weak(),
                StrictVal::List(xs) if within(xs.len(), s) => {
                    if matches!(self.sh[*i], Uni) {
                        let mut r = String::new();
                        for x in xs {
                            match x {
                                StrictVal::String(c) if c.chars().count() == 1 => r.push_str(c),
                                _ => return No,
                            }
                        }
                        return may(StrictVal::String(r));
                    }
                    let parts = xs.iter().map(|x| self.conf(*i, x)).collect();
                    if self.is_byte(*i) {
                        seq(parts, Self::to_bytes)
                    } else if self.is_char(*i) {
                        seq(parts, |p| self.join(*i, &p))
                    } else {
                        seq(parts, StrictVal::List)
                    }
                }
                _ => No,
            },
            (Set(i, s), StrictVal::Set(xs)) if within(xs.len(), s) => {
                match all(xs.iter().map(|x| self.conf(*i, x)).collect()) {
                    Err(e) => e,
                    Ok((must, v)) => {
                        for a in 0..v.len() { for b in 0..a { if same(&v[a], &v[b]) { return No } } }
                        Yes { must, val: StrictVal::Set(v) }
                    }
                }
            }
            (Map(k, i, s), StrictVal::Map(xs)) if within(xs.len(), s) => {
                let ks = all(xs.iter().map(|x| self.conf(*k, &x.0)).collect());
                let vs = all(xs.iter().map(|x| self.conf(*i, &x.1)).collect());
                match (ks, vs) {
                    (Err(No), _) | (_, Err(No)) => No,
                    (Err(e), _) | (_, Err(e)) => e,
                    (Ok((m1, ks)), Ok((m2, vs))) => {
                        for a in 0..ks.len() { for b in 0..a { if same(&ks[a], &ks[b]) { return No } } }
                        Yes { must: m1 && m2, val: StrictVal::Map(ks.into_iter().zip(vs).collect()) }
                    }
                }
            }
            _ => No,
        }
    }
    fn mk_struct(&self, fs: &[(&'static str, usize)], parts: Vec<V>) -> V {
        seq(parts, |p| StrictVal::Struct(fs.iter().map(|(n, _)| fnm(n)).zip(p).collect::<IndexMap<_, _>>()))
    }

    /// Reference encoding of a canonical value.
    pub fn enc(&self, t: usize, v: &StrictVal, o: &mut Vec<u8>) {
        match (&self.sh[t], v) {
            (Prim(_), StrictVal::Unit) => {}
            (Prim(p), StrictVal::Number(n)) => o.extend_from_slice(&num_bytes(n)[..p.byte_size() as usize]),
            (Enum(vs), StrictVal::Enum(EnumTag::Name(n))) => o.push(vs.iter().find(|x| x.0 == n.as_str()).unwrap().1),
            (Union(vs), StrictVal::Union(EnumTag::Name(n), x)) => {
                let v = vs.iter().find(|x| x.0 == n.as_str()).unwrap();
                o.push(v.1);
                self.enc(v.2, x, o)
            }
            (Tup(_), StrictVal::String(s)) => {
                let (_, _, sz) = self.rstr(t).unwrap();
                let sz = Sizing { min: 0, max: sz.max.saturating_add(1) };
                o.extend_from_slice(&(s.len() as u64).to_le_bytes()[..prefix(&sz)]);
                o.extend_from_slice(s.as_bytes());
            }
            (Tup(fs), StrictVal::Tuple(xs)) => for (t, x) in fs.iter().zip(xs) { self.enc(*t, x, o) },
            (Str(fs), StrictVal::Struct(m)) => for (n, t) in fs { self.enc(*t, m.iter().find(|x| x.0.as_str() == *n).unwrap().1, o) },
            (Arr(..), StrictVal::Bytes(b)) => o.extend_from_slice(b),
            (Arr(t, _), StrictVal::List(xs)) => for x in xs { self.enc(*t, x, o) },
            (List(_, s), StrictVal::Bytes(b)) => {
                o.extend_from_slice(&(b.len() as u64).to_le_bytes()[..prefix(s)]);
                o.extend_from_slice(b)
            }
            (List(_, s), StrictVal::String(b)) => {
                o.extend_from_slice(&(b.len() as u64).to_le_bytes()[..prefix(s)]);
                o.extend_from_slice(b.as_bytes())
            }
            (List(t, s), StrictVal::List(xs)) | (Set(t, s), StrictVal::Set(xs)) => {
                o.extend_from_slice(&(xs.len() as u64).to_le_bytes()[..prefix(s)]);
                for x in xs { self.enc(*t, x, o) }
            }
            (Map(k, t, s), StrictVal::Map(xs)) => {
                o.extend_from_slice(&(xs.len() as u64).to_le_bytes()[..prefix(s)]);
                for (a, b) in xs {
                    self.enc(*k, a, o);
                    self.enc(*t, b, o)
                }
            }
            _ => panic!("oracle: not a canonical value"),
        }
    }
}

pub fn within(n: usize, s: &Sizing) -> bool { n as u64 >= s.min && n as u64 <= s.max }
pub fn same_str(a: &str, b: &str) -> bool { a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(a, b)| a == b) }
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i] }
    d == 0
}
/// Equality of values; numbers are compared as numbers whatever their representation.
pub fn same(a: &StrictVal, b: &StrictVal) -> bool {
    match (a, b) {
        (StrictVal::Number(StrictNum::Uint(x)), StrictVal::Number(StrictNum::Uint(y))) => x == y,
        (StrictVal::Number(StrictNum::Int(x)), StrictVal::Number(StrictNum::Int(y))) => x == y,
        (StrictVal::Number(x), StrictVal::Number(y)) => same_bytes(&num_bytes(x), &num_bytes(y)),
        (StrictVal::String(x), StrictVal::String(y)) => same_bytes(x.as_bytes(), y.as_bytes()),
        (StrictVal::Bytes(x), StrictVal::Bytes(y)) => same_bytes(&x.0, &y.0),
        (StrictVal::Enum(x), StrictVal::Enum(y)) => x == y,
        (StrictVal::Union(x, v), StrictVal::Union(y, w)) => x == y && same(v, w),
        (StrictVal::List(x), StrictVal::List(y))
        | (StrictVal::Set(x), StrictVal::Set(y))
        | (StrictVal::Tuple(x), StrictVal::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (StrictVal::Map(x), StrictVal::Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(&x.0, &y.0) && same(&x.1, &y.1))
        }
        (StrictVal::Struct(x), StrictVal::Struct(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k.as_str() == l.as_str() && same(v, w)))
        }
        (StrictVal::Unit, StrictVal::Unit) => true,
        _ => false,
    }
}

// ---- type universe -----------------------------------------------------------------------------

pub const S255: Sizing = Sizing { min: 0, max: 255 };
pub const TYPES: usize = 66;

/// symbolic length bounds (both ends)
pub fn sz() -> Sizing {
    let s = Sizing { min: sym::u64_(), max: sym::u64_() };
    sym::assume(s.min <= s.max);
    s
}

pub fn universe(n: usize, sz: fn() -> Sizing) -> U {
    const PRIMS: [Primitive; 22] = [
        Primitive::UNIT, Primitive::BYTE, Primitive::U8, Primitive::U16, Primitive::U24, Primitive::U32, Primitive::U40,
        Primitive::U48, Primitive::U56, Primitive::U64, Primitive::I8, Primitive::I16, Primitive::I32, Primitive::I64,
        Primitive::I24, Primitive::U128, Primitive::U256, Primitive::U1024, Primitive::I128, Primitive::I256, Primitive::F32,
        Primitive::N8,
    ];
    let mut u = U { sh: vec![], root: 0 };
    if n < 22 {
        u.prim(PRIMS[n]);
        return u;
    }
    let unit = u.prim(Primitive::UNIT);
    let u8_ = u.prim(Primitive::U8);
    let u16_ = u.prim(Primitive::U16);
    let i16_ = u.prim(Primitive::I16);
    let byte = u.prim(Primitive::BYTE);
    let uni = u.add(Uni);
    let boole = u.add(Enum(vec![("false", 0), ("true", 1)]));
    let chr = u.add(Enum(vec![("lo", 97), ("c", 98), ("us", 95)]));
    let chr2 = u.add(Enum(vec![("lo", 97), ("b", 98), ("one", 49), ("us", 95)]));
    let nt = u.add(Tup(vec![u16_]));
    let opt = |u: &mut U, t| u.add(Union(vec![("none", 0, unit), ("some", 1, t)]));
    u.root = match n {
        22 => boole,
        23 => u.add(Enum(vec![("ax", 1), ("by", 5), ("cz", 200)])),
        24 => chr,
        25 => opt(&mut u, u8_),
        26 => u.add(Union(vec![("xx", 2, u16_), ("yy", 7, unit), ("zz", 9, boole)])),
        27 => u.add(Union(vec![("none", 0, u8_), ("some", 1, u16_)])),
        28 => { let i = opt(&mut u, u8_); opt(&mut u, i) }
        29 => { let i = u.add(Union(vec![("xx", 2, u16_), ("none", 7, unit)])); opt(&mut u, i) }
        30 => nt,
        31 => { let l = u.add(List(u8_, S255)); let a = u.add(Tup(vec![l])); u.add(Tup(vec![a])) }
        32 => u.add(Tup(vec![u8_, i16_])),
        33 => { let l = u.add(List(u8_, S255)); u.add(Tup(vec![u8_, l])) }
        34 => { let l = u.add(List(chr2, sz())); u.add(Tup(vec![chr, l])) }
        35 => { let l = u.add(List(u16_, S255)); u.add(Tup(vec![l])) }
        36 => u.add(Tup(vec![u8_, boole, u16_])),
        37 => u.add(Str(vec![("aa", u8_), ("bb", boole)])),
        38 => { let o = opt(&mut u, u8_); u.add(Str(vec![("aa", o), ("bb", nt), ("cc", unit)])) }
        39 => u.add(Arr(u8_, 2)),
        40 => u.add(Arr(byte, 3)),
        41 => u.add(Arr(u16_, 2)),
        42 => u.add(Arr(chr, 2)),
        43 => u.add(Arr(boole, 1)),
        44 => u.add(Arr(u8_, 0)),
        45 => u.add(List(u8_, sz())),
        46 => u.add(List(byte, sz())),
        47 => u.add(List(u16_, sz())),
        48 => u.add(List(uni, sz())),
        49 => u.add(List(chr, sz())),
        50 => u.add(List(boole, sz())),
        51 => u.add(List(unit, sz())),
        52 => { let l = u.add(List(u8_, S255)); u.add(List(l, sz())) }
        53 => { let s = u.add(Str(vec![("aa", u8_), ("bb", boole)])); u.add(List(s, sz())) }
        54 => u.add(Set(u8_, sz())),
        55 => { let s = u.add(Tup(vec![u8_, boole])); u.add(Set(s, sz())) }
        56 => u.add(Map(u8_, u16_, sz())),
        57 => { let k = u.add(List(uni, S255)); let o = opt(&mut u, u8_); u.add(Map(k, o, sz())) }
        58 => u.add(Map(boole, nt, sz())),
        59 => { let l = u.add(List(chr2, Sizing { min: 0, max: 2 })); let r = u.add(Tup(vec![chr, l])); u.add(List(r, sz())) }
        60 => { let l = u.add(List(chr2, Sizing { min: 0, max: 255 })); let r = u.add(Tup(vec![chr, l])); opt(&mut u, r) }
        61 => { let l = u.add(List(chr2, Sizing { min: 1, max: 2 })); let r = u.add(Tup(vec![chr, l])); let n = u.add(Tup(vec![r])); u.add(Str(vec![("aa", n), ("bb", u8_)])) }
        62 => { let n = u.add(Tup(vec![u8_])); u.add(List(n, sz())) }
        63 => { let n = u.add(Tup(vec![u8_, i16_])); u.add(List(n, sz())) }
        64 => { let n = u.add(Union(vec![("xx", 2, u16_), ("yy", 7, unit)])); let s = u.add(Str(vec![("aa", n)])); u.add(Arr(s, 2)) }
        _ => { let a = u.add(Arr(byte, 2)); let l = u.add(List(u16_, sz())); u.add(Tup(vec![a, l])) }
    };
    u
}

// ---- value generators --------------------------------------------------------------------------

pub struct G<'a> {
    pub u: &'a U,
    /// how many nodes may deviate from the plain spelling
    pub odd: u32,
    /// longest collection generated
    pub len: usize,
}

pub fn sym_string(n: usize) -> StrictVal {
    let mut b = vec![];
    for _ in 0..n {
        let c = sym::u8_();
        sym::assume(c < 128);
        b.push(c);
    }
    StrictVal::String(unsafe { String::from_utf8_unchecked(b) })
}
pub fn sym_bytes(n: usize) -> StrictVal { StrictVal::Bytes(Blob((0..n).map(|_| sym::u8_()).collect())) }
pub fn uint(v: u64) -> StrictVal { StrictVal::Number(StrictNum::Uint(v)) }
pub fn st(s: &str) -> StrictVal { StrictVal::String(s.to_string()) }
fn limbs() -> [u64; 16] {
    let mut l = [0u64; 16];
    for i in [0, 1, 2, 4, 15] { l[i] = sym::u64_() }
    l
}
pub fn big() -> StrictVal { StrictVal::Number(StrictNum::BigUint(u1024::from_inner(limbs()))) }
pub fn ibig() -> StrictVal {
    let mut l = limbs();
    if sym::choice(2) == 1 { for i in 0..16 { l[i] = !l[i] } }
    StrictVal::Number(StrictNum::BigInt(i1024::from_inner(l)))
}

impl G<'_> {
    pub fn val(&mut self, t: usize) -> StrictVal {
        if self.odd > 0 && sym::choice(2) == 1 {
            self.odd -= 1;
            return self.odd_val(t);
        }
        self.good(t)
    }
    fn vals(&mut self, t: usize, n: usize) -> Vec<StrictVal> { (0..n).map(|_| self.val(t)).collect() }
    /// plain spelling, symbolic payload
    pub fn good(&mut self, t: usize) -> StrictVal {
        let u = self.u;
        match &u.sh[t] {
            Prim(p) if *p == Primitive::UNIT => StrictVal::Unit,
            Prim(p) => match int_kind(*p) {
                Some((w, false)) if w <= 8 => uint(sym::u64_()),
                Some((w, true)) if w <= 8 => StrictVal::Number(StrictNum::Int(sym::u64_() as i64)),
                Some((_, false)) => big(),
                Some((_, true)) => ibig(),
                None => uint(sym::u64_()),
            },
            Uni => sym_string(1),
            Enum(vs) => StrictVal::Enum(EnumTag::Name(vn(vs[sym::choice(vs.len())].0))),
            Union(vs) => {
                let v = vs[sym::choice(vs.len())];
                StrictVal::Union(EnumTag::Name(vn(v.0)), Box::new(self.val(v.2)))
            }
            Tup(_) if u.rstr(t).is_some() => sym_string(sym::choice(self.len + 2)),
            Tup(fs) => StrictVal::Tuple(fs.iter().map(|t| self.val(*t)).collect()),
            Str(fs) => StrictVal::Struct(fs.iter().map(|(n, t)| (fnm(n), self.val(*t))).collect()),
            Arr(t, l) if u.is_byte(*t) => { let n = *l as usize; sym_bytes(n) }
            Arr(t, l) => StrictVal::List(self.vals(*t, *l as usize)),
            List(t, _) if u.is_byte(*t) => sym_bytes(sym::choice(self.len + 1)),
            List(t, _) if u.is_char(*t) || matches!(u.sh[*t], Uni) => sym_string(sym::choice(self.len + 1)),
            List(t, _) => { let n = sym::choice(self.len + 1); StrictVal::List(self.vals(*t, n)) }
            Set(t, _) => { let n = sym::choice(self.len + 1); StrictVal::Set(self.vals(*t, n)) }
            Map(k, t, _) => {
                let n = sym::choice(self.len + 1);
                StrictVal::Map((0..n).map(|_| (self.val(*k), self.val(*t))).collect())
            }
        }
    }
    /// kinds of value which have nothing to do with the type
    fn foreign(&mut self, k: usize) -> StrictVal {
        match k {
            0 => StrictVal::Unit,
            1 => uint(sym::u64_()),
            2 => StrictVal::Number(StrictNum::Int(sym::u64_() as i64)),
            3 => big(),
            4 => ibig(),
            5 => match sym::choice(4) { 2 => st("true"), 3 => st("ab"), n => sym_string(n) },
            6 => sym_bytes(sym::choice(4)),
            7 => StrictVal::Enum(EnumTag::Ord(sym::u8_())),
            8 => StrictVal::Enum(EnumTag::Name(vn(["zork", "some"][sym::choice(2)]))),
            9 => StrictVal::Union(EnumTag::Ord(sym::u8_()), Box::new(StrictVal::Unit)),
            10 => StrictVal::Union(EnumTag::Name(vn("zork")), Box::new(uint(1))),
            11 => StrictVal::List((0..sym::choice(3)).map(|_| uint(sym::u64_())).collect()),
            12 => StrictVal::Set((0..sym::choice(3)).map(|_| uint(sym::u64_())).collect()),
            13 => StrictVal::Tuple((0..sym::choice(4)).map(|_| uint(sym::u64_())).collect()),
            14 => StrictVal::Map((0..sym::choice(2)).map(|_| (uint(sym::u64_()), StrictVal::Unit)).collect()),
            15 => StrictVal::Struct((0..sym::choice(2)).map(|_| (fnm("zork"), StrictVal::Unit)).collect()),
            16 => st("\u{20ac}"),
            17 => StrictVal::List((0..1 + sym::choice(2)).map(|i| if i == 0 { sym_string(1) } else { st("c") }).collect()),
            _ => StrictVal::Tuple(vec![st("some"), uint(sym::u64_())]),
        }
    }
    /// alternative and wrong spellings
    pub fn odd_val(&mut self, t: usize) -> StrictVal {
        let u = self.u;
        let specific = match &u.sh[t] {
            Prim(_) | Uni => 1,
            Enum(_) => 3,
            Union(_) => 4,
            Tup(_) => 5,
            Str(_) => 9,
            Arr(..) => 3,
            List(..) => 2,
            Set(..) => 1,
            Map(..) => 1,
        };
        let k = sym::choice(19 + specific);
        if k < 19 { return self.foreign(k) }
        let k = k - 19;
        match &u.sh[t] {
            Prim(_) | Uni => StrictVal::Tuple(vec![self.good(t)]),
            Enum(vs) => match k {
                0 => StrictVal::Enum(EnumTag::Ord(sym::u8_())),
                1 => st(vs[sym::choice(vs.len())].0),
                _ => uint(sym::u64_()),
            },
            Union(vs) => {
                let v = vs[sym::choice(vs.len())];
                match k {
                    0 => StrictVal::Union(EnumTag::Ord(v.1), Box::new(self.val(v.2))),
                    1 => StrictVal::Tuple(vec![st(v.0), self.val(v.2)]),
                    2 => self.val(v.2),
                    _ => StrictVal::Union(EnumTag::Ord(sym::u8_()), Box::new(self.val(v.2))),
                }
            }
            Tup(fs) => {
                let mut xs: Vec<_> = fs.iter().map(|t| self.val(*t)).collect();
                match k {
                    0 => StrictVal::List(xs),
                    1 => { xs.pop(); if sym::choice(2) == 0 { StrictVal::Tuple(xs) } else { StrictVal::List(xs) } }
                    2 => { xs.push(uint(1)); if sym::choice(2) == 0 { StrictVal::Tuple(xs) } else { StrictVal::List(xs) } }
                    3 => xs.swap_remove(0),
                    _ => StrictVal::Tuple(xs),
                }
            }
            Str(fs) => {
                let mut xs: Vec<(&'static str, StrictVal)> = fs.iter().map(|(n, t)| (*n, self.val(*t))).collect();
                let smap = |xs: Vec<(&'static str, StrictVal)>| StrictVal::Map(xs.into_iter().map(|(n, v)| (st(n), v)).collect());
                let strc = |xs: Vec<(&'static str, StrictVal)>| StrictVal::Struct(xs.into_iter().map(|(n, v)| (fnm(n), v)).collect());
                match k {
                    0 => { xs.reverse(); strc(xs) }
                    1 => { xs.pop(); strc(xs) }
                    2 => { xs.push(("zork", uint(1))); strc(xs) }
                    3 => { xs.pop(); xs.push(("zork", uint(1))); strc(xs) }
                    4 => smap(xs),
                    5 => { xs.reverse(); xs.pop(); smap(xs) }
                    6 => { let d = (xs[0].0, xs[0].1.clone()); if sym::choice(2) == 0 { xs.pop(); } xs.push(d); smap(xs) }
                    7 => { xs.push((["zork", "9!"][sym::choice(2)], uint(1))); smap(xs) }
                    _ => StrictVal::Map(xs.into_iter().map(|(_, v)| (uint(7), v)).collect()),
                }
            }
            Arr(t, l) => {
                let l = *l as usize;
                match k {
                    0 => { let n = l + 1 - sym::choice(if l > 0 { 3 } else { 2 }); StrictVal::List(self.vals(*t, n)) }
                    1 => { let n = l + 1 - sym::choice(if l > 0 { 3 } else { 2 }); sym_bytes(n) }
                    _ => { let n = l + 1 - sym::choice(if l > 0 { 3 } else { 2 }); sym_string(n) }
                }
            }
            List(t, _) | Set(t, _) => {
                let n = sym::choice(self.len + 1);
                let v = self.vals(*t, n);
                if k == 0 { StrictVal::List(v) } else { StrictVal::Set(v) }
            }
            Map(k, t, _) => {
                let n = sym::choice(self.len + 1);
                StrictVal::List((0..n).map(|_| StrictVal::Tuple(vec![self.good(*k), self.good(*t)])).collect())
            }
        }
    }
}
