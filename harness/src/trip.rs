//! C09: types, libraries and type systems written down in bytes and read back.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, MediumOrdMap, SmallOrdMap, TinyOrdMap, TinyOrdSet};
use strict_encoding::{LibName, StrictDecode, StrictDeserialize, StrictEncode, StrictReader, StrictSerialize, StrictWriter, TypeName};
use strict_types::typelib::ExternTypes;
use strict_types::typesys::{SymbolicSys, SystemBuilder};
use strict_types::*;

use crate::idm::{any, lib, same, sem, Q, Refs, KINDS, S};
use crate::sym;

const MAX: usize = 0xFFFFFF;
fn bytes<T: StrictEncode>(t: &T) -> Vec<u8> {
    let w = t.strict_encode(StrictWriter::in_memory::<MAX>()).unwrap();
    w.unbox().unconfine()
}
/// the item read and the number of bytes it took
fn read<T: StrictDecode>(b: &[u8]) -> Result<(T, usize), ()> {
    let mut r = StrictReader::in_memory::<MAX>(b);
    let t = T::strict_decode(&mut r).map_err(|_| ())?;
    Ok((t, r.into_cursor().position() as usize))
}
/// writes and reads back
fn trip<T: StrictEncode + StrictDecode + PartialEq>(t: &T) -> Option<T> {
    let b = bytes(t);
    match read::<T>(&b) {
        Ok((u, n)) => {
            sym::cover(1);
            sym::check(u == *t, 1);
            sym::check(n == b.len(), 2);
            sym::check(same(&bytes(&u), &b), 3);
            Some(u)
        }
        Err(_) => { sym::check(false, 4); None }
    }
}
fn whole<T: StrictSerialize + StrictDeserialize + PartialEq>(t: &T) {
    let Ok(b) = t.to_strict_serialized::<MAX>() else { return sym::check(false, 5) };
    match T::from_strict_serialized::<MAX>(b) {
        Ok(u) => sym::check(u == *t, 6),
        Err(_) => sym::check(false, 6),
    }
}

/// cfg: kind, 10s: form of the references, 100s: embedded levels
pub fn h_trip() {
    let c = sym::config();
    let depth = c / 100;
    let mut s = any(KINDS[c % 10], depth, depth > 0);
    // references to other libraries
    if sym::choice(2) == 1 { for q in &mut s.refs { if let Q::Id(_, ext) = q { *ext = true } } }
    match c / 10 % 10 {
        0 => { trip(&s.ty::<SemId>()); }
        1 => { trip(&s.ty::<LibRef>()); }
        _ => { trip(&s.ty::<TranspileRef>()); }
    }
}

const LN: [&str; 3] = ["Lib", "Liba", "Other"];
const TN: [&str; 4] = ["Aa", "B", "Bb", "Aab"];
fn ln(i: usize) -> LibName { LibName::from(LN[i]) }
fn tn(i: usize) -> TypeName { TypeName::from(TN[i]) }

/// a library of one or two types; one of its types has a kind with all of its details
fn any_lib(kind: u8, depth: usize) -> TypeLib {
    let mut d = BTreeSet::new();
    let form = sym::choice(4);
    let deps = [0, 1, 2, 1][form];
    let mut last = None;
    for i in 0..deps {
        let b = sym::u8_();
        if let Some(l) = last { sym::assume(l < b) }
        last = Some(b);
        d.insert(Dependency::with(lib(b), ln([2, 1][i])));
    }
    let mut e = BTreeMap::new();
    for i in 0..[0, 2, 1, 0][form] {
        let lo = sym::u8_();
        let mut m = BTreeMap::from([(sem(lo), tn(i))]);
        if i == 1 {
            let hi = sym::u8_();
            sym::assume(lo < hi);
            m.insert(sem(hi), tn(3));
        }
        e.insert(ln([2, 0][i]), SmallOrdMap::try_from(m).unwrap());
    }
    let e: ExternTypes = TinyOrdMap::try_from(e).unwrap();
    let mut types = BTreeMap::from([(tn(form % 2), any(kind, depth, true).ty::<LibRef>())]);
    if form > 0 { types.insert(tn(2), Ty::List(LibRef::Named(sem(sym::u8_())), strict_encoding::Sizing { min: 0, max: sym::u64_() })); }
    TypeLib { name: ln(form / 2), dependencies: TinyOrdSet::try_from(d).unwrap(), extern_types: e, types: Confined::try_from(types).ok().unwrap() }
}
fn same_deps<'a>(a: impl ExactSizeIterator<Item = &'a Dependency>, b: impl ExactSizeIterator<Item = &'a Dependency>) -> bool {
    a.len() == b.len() && a.zip(b).all(|(x, y)| x.id == y.id && x.name == y.name)
}

/// cfg: kind, 10s: library, library in symbolic form, type system, symbolic type system
pub fn h_trip_lib() {
    let c = sym::config();
    let kind = KINDS[c % 10];
    match c / 10 {
        0 => {
            let l = any_lib(kind, 1);
            if let Some(r) = trip(&l) { sym::check(same_deps(l.dependencies.iter(), r.dependencies.iter()), 1) }
            whole(&l);
        }
        1 => {
            let l = SymbolicBytes { name: sym::choice(2), kind }.lib();
            if let Some(r) = trip(&l) { sym::check(same_deps(l.dependencies().iter(), r.dependencies().iter()), 1) }
            whole(&l);
        }
        2 => {
            let mut m = BTreeMap::new();
            let a = sym::u8_();
            m.insert(sem(a), any(kind, 0, false).ty::<SemId>());
            if sym::choice(2) == 1 {
                let b = sym::u8_();
                sym::assume(b > a);
                m.insert(sem(b), any(KINDS[sym::choice(10)], 0, true).ty::<SemId>());
            }
            let t = TypeSystem::from(MediumOrdMap::try_from(m).ok().unwrap());
            trip(&t);
            whole(&t);
        }
        _ => {
            let t = system(kind);
            trip(&t);
            whole(&t);
        }
    }
}
/// a library in symbolic form; its fields are private, hence by way of bytes
struct SymbolicBytes { name: usize, kind: u8 }
impl SymbolicBytes {
    fn lib(&self) -> SymbolicLib {
        let a = sym::u8_();
        let s = any(self.kind, 1, true);
        let mut b = bytes(&ln(self.name));
        b.extend(bytes(&TinyOrdSet::try_from(BTreeSet::from([Dependency::with(lib(a), ln(2))])).unwrap()));
        let e: ExternTypes = TinyOrdMap::try_from(BTreeMap::from([(ln(2), SmallOrdMap::try_from(BTreeMap::from([(sem(sym::u8_()), tn(3))])).unwrap())])).unwrap();
        b.extend(bytes(&e));
        let t: BTreeMap<TypeName, Ty<TranspileRef>> = BTreeMap::from([(tn(0), s.ty()), (tn(1), Ty::Array(TranspileRef::Named(tn(0)), sym::u16_()))]);
        let t: amplify::confinement::NonEmptyOrdMap<TypeName, Ty<TranspileRef>> = Confined::try_from(t).ok().unwrap();
        b.extend(bytes(&t));
        SymbolicLib::from_strict_serialized::<MAX>(Confined::try_from(b).unwrap()).ok().unwrap()
    }
}
fn system(kind: u8) -> SymbolicSys {
    let mut s = any(kind, 0, true);
    for q in &mut s.refs { *q = Q::Emb(Box::new(S { kind: 7, prim: 0, len: sym::u16_(), min: 0, max: 0, names: vec![], tags: vec![], refs: vec![Q::Emb(Box::new(S { kind: 1, prim: 0, len: 0, min: 0, max: 0, names: vec![], tags: vec![], refs: vec![] }))] })) }
    let l = TypeLib { name: ln(1), dependencies: TinyOrdSet::new(), extern_types: TinyOrdMap::new(), types: Confined::try_from(BTreeMap::from([(tn(0), s.ty::<LibRef>())])).ok().unwrap() };
    SystemBuilder::new().import(l).ok().unwrap().finalize().ok().unwrap()
}

// ---- arbitrary bytes ---------------------------------------------------------------------------

fn arbitrary<T: StrictEncode + StrictDecode>(b: &[u8]) {
    match read::<T>(b) {
        Ok((t, n)) => {
            sym::cover(1);
            sym::check(same(&bytes(&t), &b[..n]), 1)
        }
        Err(_) => sym::cover(2),
    }
}
fn arbitrary_form(form: usize, b: &[u8]) {
    match form {
        0 => arbitrary::<Ty<SemId>>(b),
        1 => arbitrary::<Ty<LibRef>>(b),
        2 => arbitrary::<Ty<TranspileRef>>(b),
        3 => arbitrary::<TypeLib>(b),
        4 => arbitrary::<SymbolicLib>(b),
        5 => arbitrary::<TypeSystem>(b),
        _ => arbitrary::<SymbolicSys>(b),
    }
}
/// cfg: number of bytes, 100s: read as
pub fn h_any_bytes() {
    let c = sym::config();
    let b: Vec<u8> = (0..c % 100).map(|_| sym::u8_()).collect();
    arbitrary_form(c / 100, &b)
}

fn fixed(kind: u8, emb: bool) -> S {
    let n = match kind { 3..=6 | 10 => 2, 7..=9 => 1, _ => 0 };
    let r = |i: usize| match i {
        0 if emb => Q::Emb(Box::new(S { kind: 10, prim: 0, len: 0, min: 1, max: 9, names: vec![], tags: vec![], refs: vec![
            Q::Emb(Box::new(S { kind: 6, prim: 0, len: 0, min: 0, max: 0, names: vec![], tags: vec![], refs: vec![Q::Id(8, false)] })), Q::Id(9, true)] })),
        i => Q::Id(i as u8, emb),
    };
    S { kind, prim: 8, len: 300, min: 2, max: 255, names: if n == 2 { vec![0, 1] } else { vec![] }, tags: if n == 2 { vec![1, 4] } else { vec![] }, refs: if kind == 3 { vec![] } else { (0..n).map(r).collect() } }
}
fn fixed_lib(kind: u8) -> TypeLib {
    let types = BTreeMap::from([(tn(0), fixed(kind, true).ty::<LibRef>()), (tn(1), Ty::List(LibRef::Named(sem(3)), strict_encoding::Sizing { min: 0, max: 77 }))]);
    let d = BTreeSet::from([Dependency::with(lib(1), ln(2)), Dependency::with(lib(2), ln(0))]);
    let e = BTreeMap::from([(ln(2), SmallOrdMap::try_from(BTreeMap::from([(sem(4), tn(0)), (sem(5), tn(3))])).unwrap())]);
    TypeLib { name: ln(1), dependencies: TinyOrdSet::try_from(d).unwrap(), extern_types: TinyOrdMap::try_from(e).unwrap(), types: Confined::try_from(types).ok().unwrap() }
}
/// valid bytes
fn skeleton(form: usize, kind: u8) -> Vec<u8> {
    match form {
        0 => bytes(&fixed(kind, false).ty::<SemId>()),
        1 => bytes(&fixed(kind, true).ty::<LibRef>()),
        2 => bytes(&fixed(kind, true).ty::<TranspileRef>()),
        3 => bytes(&fixed_lib(kind)),
        4 => {
            let l = fixed_lib(kind);
            let mut b = bytes(&l.name);
            b.extend(bytes(&l.dependencies));
            b.extend(bytes(&l.extern_types));
            let t: BTreeMap<TypeName, Ty<TranspileRef>> = BTreeMap::from([(tn(0), fixed(kind, true).ty()), (tn(1), Ty::Array(TranspileRef::Named(tn(0)), 4))]);
            let t: amplify::confinement::NonEmptyOrdMap<TypeName, Ty<TranspileRef>> = Confined::try_from(t).ok().unwrap();
            b.extend(bytes(&t));
            b
        }
        5 => {
            let m = BTreeMap::from([(sem(2), fixed(kind, false).ty::<SemId>()), (sem(9), fixed(8, false).ty::<SemId>())]);
            bytes(&TypeSystem::from(MediumOrdMap::try_from(m).ok().unwrap()))
        }
        _ => {
            let b = SystemBuilder::new().import(TypeLib { name: ln(1), dependencies: TinyOrdSet::new(), extern_types: TinyOrdMap::new(), types: Confined::try_from(BTreeMap::from([(tn(0), Ty::Array(LibRef::Inline(Ty::UnicodeChar), 5))])).ok().unwrap() });
            bytes(&b.ok().unwrap().finalize().ok().unwrap())
        }
    }
}
/// cfg: kind, 10s: read as, 100s: start of the window modulo 8, 1000s: its width
pub fn h_any_window() {
    let c = sym::config();
    let (form, kind, at, width) = (c / 10 % 10, KINDS[c % 10], c / 100 % 10, c / 1000);
    let mut b = skeleton(form, kind);
    let p = 8 * sym::choice(b.len() / 8 + 1) + at;
    if p >= b.len() { sym::reject() }
    let end = (p + width).min(b.len());
    for i in p..end { b[i] = sym::u8_() }
    arbitrary_form(form, &b);
    // cut off
    b.truncate(end);
    arbitrary_form(form, &b)
}

/// definitions embedded into each other; cfg: how many levels
pub fn h_deep() {
    let mut b = vec![];
    for _ in 0..sym::config() { b.extend([5, 1, 0]) }
    b.extend([0, sym::u8_()]);
    arbitrary_form(2, &b)
}
