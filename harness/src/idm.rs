//! C07, C08: what the ids of types, libraries and type systems commit to.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::Wrapper;
use strict_encoding::{FieldName, Primitive, Sizing, TypeName, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1, InlineRef2};
use strict_types::*;

use crate::sym;

// ---- definitions with all of their details -----------------------------------------------------

#[derive(Clone)]
pub enum Q {
    /// a type given by its id; as a type of another library
    Id(u8, bool),
    Emb(Box<S>),
}
/// 0 primitive, 1 unicode, 3 enumeration, 4 union, 5 structure, 6 tuple, 7 array, 8 list, 9 set, 10 map
#[derive(Clone)]
pub struct S {
    pub kind: u8,
    pub prim: u8,
    pub len: u16,
    pub min: u64,
    pub max: u64,
    pub names: Vec<usize>,
    pub tags: Vec<u8>,
    pub refs: Vec<Q>,
}
/// names one of which is the start of another, or another one continued
pub const POOL: [&str; 4] = ["a", "abc", "c", "ac"];
const TPOOL: [&str; 3] = ["A", "Aa", "B"];
pub fn sem(lo: u8) -> SemId {
    let mut id = [0xA5; 32];
    id[31] = lo;
    SemId::from(id)
}
pub fn lib(lo: u8) -> TypeLibId { TypeLibId::from([lo; 32]) }

pub trait Refs: TypeRef + Sized {
    fn id(lo: u8, ext: bool) -> Self;
    fn emb(s: &S) -> Self;
}
macro_rules! refs {
    ($($t:ident),*) => { $(impl Refs for $t {
        fn id(lo: u8, ext: bool) -> Self { if ext { $t::Extern(ExternRef::with(lib(lo), sem(lo))) } else { $t::Named(sem(lo)) } }
        fn emb(s: &S) -> Self { $t::Inline(s.ty()) }
    })* }
}
refs!(LibRef, InlineRef, InlineRef1);
impl Refs for InlineRef2 {
    fn id(lo: u8, ext: bool) -> Self { if ext { InlineRef2::Extern(ExternRef::with(lib(lo), sem(lo))) } else { InlineRef2::Named(sem(lo)) } }
    fn emb(_: &S) -> Self { sym::reject() }
}
impl Refs for SemId {
    fn id(lo: u8, _: bool) -> Self { sem(lo) }
    fn emb(_: &S) -> Self { sym::reject() }
}
impl Refs for TranspileRef {
    fn id(lo: u8, _: bool) -> Self { TranspileRef::Extern(SymbolRef::with(strict_encoding::LibName::from("Liba"), TypeName::from("Any"), lib(lo), sem(lo))) }
    fn emb(s: &S) -> Self { TranspileRef::Embedded(Box::new(s.ty())) }
}

impl S {
    pub fn ty<T: Refs>(&self) -> Ty<T> {
        let r: Vec<T> = self.refs.iter().map(|q| match q { Q::Id(lo, ext) => T::id(*lo, *ext), Q::Emb(s) => T::emb(s) }).collect();
        let sizing = Sizing { min: self.min, max: self.max };
        let vars = || self.names.iter().zip(&self.tags).map(|(n, t)| Variant { name: VariantName::from(POOL[*n]), tag: *t });
        let mut i = r.into_iter();
        match self.kind {
            0 => Ty::Primitive(Primitive::from_code(self.prim)),
            1 => Ty::UnicodeChar,
            3 => Ty::Enum(EnumVariants::try_from(vars().collect::<BTreeSet<_>>()).ok().unwrap()),
            4 => Ty::Union(UnionVariants::try_from(vars().zip(i).collect::<BTreeMap<_, _>>()).ok().unwrap()),
            5 => Ty::Struct(NamedFields::try_from(self.names.iter().zip(i).map(|(n, ty)| Field { name: FieldName::from(POOL[*n]), ty }).collect::<Vec<_>>()).ok().unwrap()),
            6 => Ty::Tuple(UnnamedFields::try_from(i.collect::<Vec<_>>()).ok().unwrap()),
            7 => Ty::Array(i.next().unwrap(), self.len),
            8 => Ty::List(i.next().unwrap(), sizing),
            9 => Ty::Set(i.next().unwrap(), sizing),
            _ => { let k = i.next().unwrap(); Ty::Map(k, i.next().unwrap(), sizing) }
        }
    }
    /// the definition written down; counts and the ends of embedded definitions as well, if full
    pub fn write(&self, full: bool, out: &mut Vec<u8>) {
        out.push(self.kind);
        if full { out.push(self.refs.len() as u8 + self.names.len() as u8) }
        let r = |i: usize, out: &mut Vec<u8>| match &self.refs[i] {
            Q::Id(lo, _) => {
                if full { out.push(0) }
                out.extend([0xA5; 31]);
                out.push(*lo)
            }
            Q::Emb(s) => {
                if full { out.push(1) }
                s.write(full, out)
            }
        };
        match self.kind {
            0 => out.push(self.prim),
            3..=5 => for (i, n) in self.names.iter().enumerate() {
                out.push(POOL[*n].len() as u8);
                out.extend(POOL[*n].as_bytes());
                if self.kind != 5 { out.push(self.tags[i]) }
                if self.kind != 3 { r(i, out) }
            },
            _ => (0..self.refs.len()).for_each(|i| r(i, out)),
        }
        match self.kind {
            7 => out.extend(self.len.to_le_bytes()),
            8..=10 => {
                out.extend(self.min.to_le_bytes());
                out.extend(self.max.to_le_bytes());
            }
            _ => {}
        }
    }
    fn embeds(&self) -> bool { self.refs.iter().any(|q| matches!(q, Q::Emb(_))) }
}
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(0, |acc, (x, y)| acc | (x ^ y)) == 0 }
fn named(name: Option<usize>, s: &S, full: bool) -> Vec<u8> {
    let mut out = vec![];
    if full { out.push(name.is_some() as u8) }
    if let Some(n) = name {
        out.push(TPOOL[n].len() as u8);
        out.extend(TPOOL[n].as_bytes());
    }
    s.write(full, &mut out);
    out
}
fn sem_id<T: Refs + typelib::LibSubref>(name: Option<usize>, s: &S) -> SemId {
    match name {
        Some(n) => s.ty::<T>().sem_id_named(&TypeName::from(TPOOL[n])),
        None => s.ty::<T>().sem_id_unnamed(),
    }
}

/// a definition of a kind, its references embedding up to `depth` levels
pub fn any(kind: u8, depth: usize, small: bool) -> S {
    let mut s = S { kind, prim: 0, len: 0, min: 0, max: 0, names: vec![], tags: vec![], refs: vec![] };
    let lists: &[&[usize]] = if small { &[&[0], &[0, 2]] } else { &[&[0], &[1], &[3], &[0, 2], &[2, 0], &[0, 3]] };
    if let 3..=5 = kind { s.names = lists[sym::choice(lists.len())].to_vec() }
    let refs = match kind {
        4 | 5 => s.names.len(),
        6 => 1 + sym::choice(if small { 2 } else { 3 }),
        7..=9 => 1,
        10 => 2,
        _ => 0,
    };
    match kind {
        0 => s.prim = sym::u8_(),
        7 => s.len = sym::u16_(),
        8..=10 => { s.min = sym::u64_(); s.max = sym::u64_() }
        3 | 4 => for i in 0..s.names.len() {
            s.tags.push(sym::u8_());
            if i > 0 { sym::assume(s.tags[i - 1] < s.tags[i]) }
        },
        _ => {}
    }
    for _ in 0..refs {
        let q = match sym::choice(if depth > 0 { 2 } else { 1 }) {
            0 => Q::Id(sym::u8_(), false),
            _ => Q::Emb(Box::new(any([6, 5, 8][sym::choice(3)], depth - 1, true))),
        };
        s.refs.push(q)
    }
    s
}
pub const KINDS: [u8; 10] = [0, 1, 3, 4, 5, 6, 7, 8, 9, 10];

/// cfg: kinds of both definitions, 10s; + 100: the definitions embed others
pub fn h_semid() {
    let c = sym::config();
    let depth = c / 100;
    let (k1, k2) = (KINDS[c % 10], KINDS[c / 10 % 10]);
    let (n1, n2) = if depth == 0 { [(None, None), (Some(0), Some(0)), (Some(0), Some(1)), (Some(2), Some(0)), (Some(1), None)][sym::choice(5)] } else { (None, None) };
    let s1 = any(k1, depth, depth > 0);
    let s2 = any(k2, depth, depth > 0);
    let id1 = sem_id::<LibRef>(n1, &s1);
    let id2 = sem_id::<LibRef>(n2, &s2);
    let flat = same(&named(n1, &s1, false), &named(n2, &s2, false));
    let full = same(&named(n1, &s1, true), &named(n2, &s2, true));
    // definitions which differ where the commitment tells them apart
    sym::check(flat | (id1 != id2), 1);
    // the same definition
    sym::check(!full | (id1 == id2), 2);
    // definitions which differ in how definitions are embedded into each other only
    sym::check(full | !flat | (id1 != id2), if s1.embeds() || s2.embeds() { 3 } else { 4 });
    sym::cover(1)
}

/// one definition in every form
pub fn h_semid_forms() {
    let c = sym::config();
    let mut s = any(KINDS[c % 10], c / 10, c >= 10);
    let n = sym::choice(3);
    let id = sem_id::<LibRef>(Some(n), &s);
    let un = sem_id::<LibRef>(None, &s);
    sym::check(s.ty::<TranspileRef>().sem_id_named(&TypeName::from(TPOOL[n])) == id, 5);
    sym::check(TranspileRef::emb(&s).id() == un, 5);
    sym::check(sem_id::<InlineRef>(None, &s) == un && sem_id::<InlineRef>(Some(n), &s) == id, 5);
    if c < 20 { sym::check(sem_id::<InlineRef1>(None, &s) == un && sem_id::<InlineRef1>(Some(n), &s) == id, 5) }
    if !s.embeds() {
        sym::check(sem_id::<InlineRef2>(None, &s) == un && sem_id::<InlineRef2>(Some(n), &s) == id, 5);
        sym::check(s.ty::<SemId>().sem_id_unnamed() == un, 5);
        sym::cover(1)
    }
    // types of other libraries count by their id
    for q in &mut s.refs { if let Q::Id(_, ext) = q { *ext = true } }
    sym::check(sem_id::<LibRef>(Some(n), &s) == id && sem_id::<LibRef>(None, &s) == un, 6);
    sym::cover(2)
}
